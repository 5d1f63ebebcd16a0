/* X(name, symbol, block size, max key, max tweak, descriptor expression with prefix P) */
X(t3way, 12, 12, 0, D(3way))
X(aes, 16, 32, 0, D(aes))
X(anubis, 16, 40, 0, D(anubis))
X(aria, 16, 32, 0, D(aria))
X(blowfish, 8, 56, 0, D(blowfish))
X(camellia, 16, 32, 0, D(camellia))
X(cast5, 8, 16, 0, D(cast5))
X(crax_s, 8, 16, 0, D(crax_s))
X(des, 8, 24, 0, D(des))
X(gost_cbr, 8, 32, 0, G(gost_cbr))
X(gost_r34, 8, 32, 0, G(gost_r34_12_2015))
X(idea, 8, 16, 0, D(idea))
X(khazad, 8, 16, 0, D(khazad))
X(lea, 16, 32, 0, D(lea))
X(noekeon, 16, 16, 0, D(noekeon))
X(rc2, 8, 128, 0, D(rc2))
X(rc5, 8, 255, 0, D(rc5))
X(rc6, 16, 255, 0, D(rc6))
X(rectangle, 8, 16, 0, D(rectangle))
X(rijndael256, 32, 32, 0, D(rijndael256))
X(safer, 8, 16, 0, D(safer))
X(safer_sk, 8, 16, 0, D(safer_sk))
X(saferpp, 16, 32, 0, D(saferpp))
X(seed, 16, 16, 0, D(seed))
X(serpent, 16, 32, 0, D(serpent))
X(shacal2, 32, 64, 0, D(shacal2))
X(simon128, 16, 32, 0, D(simon128))
X(simon32, 4, 8, 0, D(simon32))
X(simon64, 8, 16, 0, D(simon64))
X(skipjack, 8, 10, 0, D(skipjack))
X(sm4, 16, 16, 0, D(sm4))
X(speck128, 16, 32, 0, D(speck128))
X(speck32, 4, 8, 0, D(speck32))
X(speck64, 8, 16, 0, D(speck64))
X(tea, 8, 16, 0, D(tea))
X(threefish256, 32, 32, 16, D(threefish256))
X(threefish512, 64, 64, 16, D(threefish512))
X(threefish1024, 128, 128, 16, D(threefish1024))
X(trax_l, 32, 32, 16, D(trax_l))
X(trax_m, 16, 16, 8, D(trax_m))
X(twofish, 16, 32, 0, D(twofish))
X(xtea, 8, 16, 0, D(xtea))
