/* generated: fractional parts of cube roots of the first primes */
static const uint64_t SHA_K64[160]={0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL,0x7ba0ea2d98160007ULL,0x7eabf2d0c21f964aULL,0x8dbe8d038b409545ULL,0x90bb1721582e8285ULL,0x99a2ad45936d4e61ULL,0x9f86e289fe03e739ULL,0xa84c4472faa9a82fULL,0xb3df34fce89e0532ULL,0xb99bb8d7b173534fULL,0xbc76cbab1aea1f9cULL,0xc226a69a780f3cc3ULL,0xd304f19aa233957dULL,0xde1be20a212129ddULL,0xe39bb43755141950ULL,0xee84927cea48ddd2ULL,0xf3edd2773c523b67ULL,0xfbfdfe53a8d32f2aULL,0x0bee2c7ab77e9e25ULL,0x0e90181cf1b09e56ULL,0x25f57204c725bed8ULL,0x2da45582cd598b32ULL,0x3a52c34c203bfcf3ULL,0x41dc0172cd1991c1ULL,0x495796fcb33cc1c0ULL,0x4bd31fc693f9f16eULL,0x533cde2115f5a9a0ULL,0x5f7abfe36e99c1d3ULL,0x66c206b310a57e6fULL,0x6dfcc6bc39603f61ULL,0x7062f20f86fd1052ULL,0x778d51277adec865ULL,0x7eaba3cc25da7048ULL,0x8363eccc37a5be05ULL,0x85be1c253beba54eULL,0x93c04028f348bbc5ULL,0x9f4a205fd05b2148ULL,0xa19535651ca6d2deULL,0xa627bb0fbf027bc7ULL,0xacfa80891da2f06bULL,0xb3c29b23031a7f9dULL,0xb602f6fac7d3d74dULL,0xc36cee0a10c7ba49ULL,0xc7dc81eea9ebad4fULL,0xce7b8471b0f809dfULL,0xd740288c84df269cULL,0xe21dba7ac2290607ULL,0xeabbff66be175964ULL,0xf56a9e60f62cea92ULL,0xfde41d729d126eabULL,0x0434d0970e42e781ULL,0x0a7cb752a3f1cd86ULL,0x0ea7d22d6bcd7382ULL,0x16f2987f9495a5eeULL,0x1d20cdcd45b8de1eULL,0x213af85a39b0c320ULL,0x2964505c52a2f35bULL,0x2d738e114181e082ULL,0x3b8cea0e71c58aafULL,0x4584e6ae9f54016eULL,0x515f4356903dccc2ULL,0x5356112ddfd5a8e9ULL,0x5d1bc3edbe2c897aULL,0x5f0da9f8ed53548bULL,0x62ef0be4d5492e78ULL,0x64de896eace0be7fULL,0x6e801ba3078ae05fULL,0x7bdb3595cdadf50aULL,0x7fa5377856834c98ULL,0x818916bad3d008a8ULL,0x854e959f834021a7ULL,0x926a82c27137e2c6ULL,0x9622c7ba7d179197ULL,0x97fdd5929d59ce21ULL,0x9bb1cb7470162d7eULL,0xae0b55609ffea9d5ULL,0xb1ae88ab4eca7239ULL,0xb8ecc9f6468460a1ULL,0xc1eb8968a81a3124ULL,0xc911dd821bb6b418ULL,0xcca11fe32d0c58d0ULL};
static const uint64_t SQRT64[16]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL,0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
static const uint32_t PI32[16]={0x243f6a88u,0x85a308d3u,0x13198a2eu,0x03707344u,0xa4093822u,0x299f31d0u,0x082efa98u,0xec4e6c89u,0x452821e6u,0x38d01377u,0xbe5466cfu,0x34e90c6cu,0xc0ac29b7u,0xc97c50ddu,0x3f84d5b5u,0xb5470917u};
static const uint64_t PI64[16]={0x243f6a8885a308d3ULL,0x13198a2e03707344ULL,0xa4093822299f31d0ULL,0x082efa98ec4e6c89ULL,0x452821e638d01377ULL,0xbe5466cf34e90c6cULL,0xc0ac29b7c97c50ddULL,0x3f84d5b5b5470917ULL,0x9216d5d98979fb1bULL,0xd1310ba698dfb5acULL,0x2ffd72dbd01adfb7ULL,0xb8e1afed6a267e96ULL,0xba7c9045f12c7f99ULL,0x24a19947b3916cf7ULL,0x0801f2e2858efc16ULL,0x636920d871574e69ULL};
