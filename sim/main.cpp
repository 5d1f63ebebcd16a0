/* Deciding procedures, batch driver and replay. */
#include "plan.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <fstream>
#include <sstream>

const Plan *cur_plan; const char *phase = "run"; uint64_t evals; std::set<uint64_t> distinct;
static std::string viol_path; static uint64_t cur_idx;
static uint64_t total_ticks, total_switches, total_preempt, sim_seconds, max_steps;
static std::vector<std::string> samples;
static FILE *obs_out;

static void on_violation(const char *cls, const char *msg, int step, int)
{
	(void)step;
	if(cur_plan && !viol_path.empty())
	{
		Plan q = *cur_plan;
		if(rt::cfg.record || (q.c.record && !strcmp(phase, "interleaved"))) { q.c.record = false; q.c.slices = rt::taken; }
		std::ofstream f(viol_path); f << "# " << cls << " " << phase << ": " << msg << "\n# build variant " << rt::variant << ", generated as index " << cur_idx << "\n" << q.text();
	}
	printf("VIOL %s %s %llu %s\n", cls, phase, (unsigned long long)cur_idx, msg); fflush(stdout);
	_exit(4);
}
static void account(const RunRes &r)
{
	total_ticks += rt::ticks; total_switches += rt::switches; total_preempt += rt::preempt_in_lib;
	uint64_t dt = (uint64_t)(rt::now_s > rt::cfg.time0 ? rt::now_s - rt::cfg.time0 : rt::cfg.time0 - rt::now_s); sim_seconds += dt;
	if(r.ran > (int)max_steps) max_steps = (uint64_t)r.ran;
}
static int effective(const RunRes &r) { int n = 0; for(uint64_t v : r.obs) n += v != 0 && v != 0x1234; return n; }
static void sample(const Plan &p) { if(samples.size() < 3) { std::string t = p.text(); if(t.size() > 1500) t = t.substr(0, 1500) + "..."; samples.push_back(t); } }
static void go(const Plan &p, const RunOpt &o, RunRes &r, const char *ph) { cur_plan = &p; phase = ph; run_plan(p, o, r); account(r); }

/* fault sets for one plan: every single allocation when few, otherwise a sample, plus exhaustion from a point on */
static std::vector<std::vector<rt::Fault>> fault_sets(const Plan &p, const RunRes &base, unsigned cap, Rng &r)
{
	std::vector<std::pair<int, int>> pts;
	for(size_t i = 0; i < p.steps.size(); i++) for(int k = 0; k < base.allocs[i]; k++) pts.push_back({p.steps[i].id, k});
	std::vector<std::vector<rt::Fault>> v;
	if(pts.empty()) return v;
	std::vector<size_t> order(pts.size()); for(size_t i = 0; i < pts.size(); i++) order[i] = i;
	for(size_t i = pts.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	for(size_t i = 0; i < order.size() && v.size() < cap; i++) v.push_back({rt::Fault{pts[order[i]].first, pts[order[i]].second, 1}});
	unsigned extra = 1 + cap / 6;
	for(unsigned i = 0; i < extra; i++)
	{
		auto q = r.pick(pts); std::vector<rt::Fault> s{rt::Fault{q.first, q.second, r.chance(50) ? 1000 : 2}};
		for(unsigned k = (unsigned)r.below(4); k; k--) { auto z = r.pick(pts); s.push_back(rt::Fault{z.first, z.second, 1 + (int)r.below(3)}); }
		v.push_back(s);
	}
	return v;
}
static void same_obs(const Plan &p, const RunRes &a, const RunRes &b, const std::vector<int> &which, const char *what)
{
	for(size_t i = 0; i < p.steps.size(); i++)
	{
		bool in = which.empty() || std::find(which.begin(), which.end(), p.steps[i].task) != which.end();
		if(in && a.obs[i] != b.obs[i]) rt::fail("FUNC", "result of step %d (%s, task %d) %s", p.steps[i].id, op_names[p.steps[i].op], p.steps[i].task, what);
	}
}
static void compare_freelogs(const Plan &p, const std::vector<rt::FreeRec> &a, const std::vector<rt::FreeRec> &b)
{
	(void)p;
	for(size_t i = 0; i < a.size() && i < b.size(); i++)
	{
		if(a[i].n != b[i].n || a[i].step != b[i].step) rt::fail("SECRET", "the sequence of released blocks depends on secret values (release %zu, step %d)", i, a[i].step);
		if(a[i].h != b[i].h) { size_t k = 0, cnt = 0; for(size_t j = a[i].n; j--;) if(a[i].data[j] != b[i].data[j]) { k = j; cnt++; } rt::fail("SECRET", "a block of %zu bytes allocated in step %d is released in step %d with at least %zu bytes that depend on secrets, from offset %zu", a[i].n, a[i].idx, a[i].step, cnt, k); }
	}
	if(a.size() != b.size()) rt::fail("SECRET", "the number of released blocks depends on secret values");
}

static void secret_twins(const Plan &p)
{
	Plan a = p; a.c.freelog = true; a.c.fill = 4; RunRes r1, r2; RunOpt o;
	a.c.secret = 0x1111111111111111ULL; go(a, o, r1, "secretA"); std::vector<rt::FreeRec> f1; f1.swap(rt::freelog);
	a.c.secret = 0x7777777777777777ULL; go(a, o, r2, "secretB"); std::vector<rt::FreeRec> f2; f2.swap(rt::freelog);
	cur_plan = &p; phase = "twin"; rt::stats["releases_compared"] += f1.size();
	compare_freelogs(p, f1, f2);
	if(effective(r1) >= 1 && f1.size()) distinct.insert(p.sig());
}
static double worst_scaling;
static void candidates(const Plan &p)
{
	size_t vi = (size_t)p.vary - 1; if(p.vary < 1 || vi >= p.steps.size()) return;
	Plan q = p; q.c.trace = true; RunRes r; RunOpt o; o.model = true;
	struct C { int kind; int64_t pos, val; }; size_t n = (size_t)q.steps[vi].a[A_len]; if(!n) return;
	std::vector<C> cs{{0, 0, 0}, {1, 0, 1}, {1, (int64_t)n - 1, 0x80}, {2, 0, 0}, {3, 0, 0}, {5, (int64_t)n / 2, 3}};
	Rng g(p.xseed); for(int i = 0; i < 8; i++) cs.push_back(C{(int)g.below(8), (int64_t)g.below(n), (int64_t)g.below(1 << 20)});
	/* the verdict may be acted upon (by a few steps); where and how the contents differ must not show */
	uint64_t first = 0, ft = 0, other = 0, ot = 0, verdict = 0;
	for(size_t i = 0; i < cs.size(); i++)
	{
		q.steps[vi].a[A_kind] = cs[i].kind; q.steps[vi].a[A_pos] = cs[i].pos; q.steps[vi].a[A_val] = cs[i].val;
		cur_plan = &q; go(q, o, r, "candidate"); cur_plan = &p; phase = "candidates"; rt::stats["candidates_compared"]++;
		if(!r.ran) return;
		if(!i) { first = rt::trace_hash; ft = rt::ticks; verdict = r.obs[vi]; }
		else if(r.obs[vi] != verdict)
		{
			if(!ot) { other = rt::trace_hash; ot = rt::ticks; if((ot > ft ? ot - ft : ft - ot) > 32) rt::fail("TIMING", "step %d takes %llu steps for an altered candidate and %llu for the equal one", p.steps[vi].id, (unsigned long long)ot, (unsigned long long)ft); }
			else if(rt::trace_hash != other || rt::ticks != ot) rt::fail("TIMING", "step %d executes differently for candidate %zu (kind %d, position %lld) than for another altered one: %llu against %llu steps", p.steps[vi].id, i, cs[i].kind, (long long)cs[i].pos, (unsigned long long)rt::ticks, (unsigned long long)ot);
		}
		else if(rt::trace_hash != first || rt::ticks != ft) rt::fail("TIMING", "step %d executes differently for candidate %zu (kind %d, position %lld) than for the equal one: %llu against %llu steps", p.steps[vi].id, i, cs[i].kind, (long long)cs[i].pos, (unsigned long long)rt::ticks, (unsigned long long)ft);
	}
	if(effective(r) >= 1) distinct.insert(p.sig());
}
/* C20: the cost of one step at one, four and sixteen times the stated work; more than proportional growth is a violation */
static void scaling(const Plan &p)
{
	size_t vi = (size_t)p.vary - 1; if(p.vary < 1 || vi >= p.steps.size() || p.vfield < 0 || p.vfield >= A_COUNT) return;
	double t[3]; RunOpt o; RunRes r; int64_t x = p.steps[vi].a[p.vfield]; Plan q = p;
	for(int i = 0; i < 3; i++)
	{
		q.steps[vi].a[p.vfield] = x << 2 * i; go(q, o, r, "scaled"); cur_plan = &p;
		if(!r.ran || !(t[i] = (double)r.ticks[vi])) return;
	}
	rt::stats["work_scalings"]++; cover[std::string("scaling.") + op_names[p.steps[vi].op] + "." + arg_names[p.vfield]]++;
	double slow = (t[2] - t[1] - 4 * std::max(t[1] - t[0], 1.0)) / (0.12 * (t[2] - t[1]) + 4000); if(slow > worst_scaling) worst_scaling = slow;
	if(slow > 1) rt::fail("HANG", "the cost of step %d (%s) grows faster than its work: %.0f, %.0f and %.0f steps for %s of %lld, %lld and %lld", p.steps[vi].id, op_names[p.steps[vi].op], t[0], t[1], t[2], arg_names[p.vfield], (long long)x, (long long)x * 4, (long long)x * 16);
	distinct.insert(p.sig()); sample(p);
}
static void interleave(const Plan &p)
{
	RunOpt o; std::vector<RunRes> alone((size_t)p.ntasks);
	Plan b = p; b.c.record = false; b.c.preempt = false;
	for(int k = 0; k < p.ntasks; k++) { o.only = k; go(b, o, alone[(size_t)k], "baseline"); cur_plan = &p; }
	o.only = -1; o.fibers = true; RunRes r; go(p, o, r, "interleaved");
	phase = "interleaved";
	for(int k = 0; k < p.ntasks; k++) same_obs(p, alone[(size_t)k], r, {k}, "differs from what the task observes running alone");
	uint64_t sh = rt::sched_hash; bool nt = rt::preempt_in_lib > 0;
	if(nt) { distinct.insert(hmix(p.sig(), sh)); if(samples.size() < 3) { Plan q = p; q.c.record = false; q.c.slices = p.c.record ? rt::taken : p.c.slices; sample(q); } }
}

void check_plan(Plan &p)
{
	const std::string &k = p.prop; RunOpt o; RunRes r; Rng x(p.xseed ^ 0xFA17);
	if(k == "C07" || k == "C08")
	{
		if(!p.expand) { interleave(p); return; }
		for(int i = 0; i < 6; i++) { p.c.srng = x.next(); if(i >= 3) p.c.avg = std::vector<unsigned>{8, 30, 200, 2000, 30000}[x.below(5)]; interleave(p); }
		return;
	}
	if(k == "C09")
	{
		Plan b = p; b.c.faults.clear(); RunRes base; go(b, o, base, "baseline");
		std::vector<std::vector<rt::Fault>> fs; if(p.expand) fs = fault_sets(p, base, 40, x); else fs.push_back(p.c.faults);
		for(auto &f : fs) { Plan q = p; q.c.faults = f; go(q, o, r, "faulted"); phase = "faulted"; same_obs(q, base, r, {}, "differs from the run without allocation failures"); if(r.alloc_failed) { distinct.insert(q.sig()); sample(q); } }
		return;
	}
	if(k == "C20" && p.vary >= 0) { scaling(p); return; }
	if(k == "C10" || k == "C18" || k == "C20" || k == "C17" || k == "C11" || k == "C13" || k == "C22" || k == "C23")
	{
		bool faults = p.expand; unsigned cap = k == "C10" ? 40 : k == "C18" ? 6 : k == "C17" ? 10 : k == "C11" ? 4 : k == "C13" ? 14 : k == "C22" ? 8 : k == "C23" ? 2 : 4;
		o.model = k == "C18" || k == "C22" || k == "C23";
		if(!p.c.faults.empty() || k != "C13") go(p, o, r, p.c.faults.empty() ? "run" : "faulted");
		if(k == "C13")
		{
			if(p.expand) { go(p, o, r, "run"); }
			secret_twins(p);
		}
		else if(effective(r) >= 1 && (k != "C10" || r.alloc_failed)) { distinct.insert(p.sig()); sample(p); }
		if(!faults) return;
		for(auto &f : fault_sets(p, r, cap, x))
		{
			Plan q = p; q.c.faults = f; q.expand = false;
			if(k == "C13") { secret_twins(q); sample(q); continue; }
			go(q, o, r, "faulted"); if(r.alloc_failed) { distinct.insert(q.sig()); sample(q); }
		}
		return;
	}
	if(k == "C12")
	{
		RunRes base; Plan a = p; a.c.fill = 0; go(a, o, base, "fillA");
		for(int f = 1; f < 4; f++) { Plan b = p; b.c.fill = f; b.c.fillseed = p.c.fillseed + (uint64_t)f; go(b, o, r, "fillB"); cur_plan = &p; phase = "twin"; same_obs(p, base, r, {}, "depends on the prior contents of memory"); }
		if(effective(r) >= 2) { distinct.insert(p.sig()); sample(p); }
		return;
	}
	if(k == "C14") { if(p.vary < 0) { o.model = true; go(p, o, r, "run"); distinct.insert(p.sig()); } else candidates(p); sample(p); return; }
	o.model = k != "C21";
	go(p, o, r, "run");
	if(obs_out) fprintf(obs_out, "%llu %016llx\n", (unsigned long long)cur_idx, (unsigned long long)r.obs_hash);
	bool nt = k == "C15" ? rt::dev_faults || p.c.openfail || p.c.devsize >= 0 || !p.c.env.empty() : effective(r) >= 2;
	if(nt) { distinct.insert(k == "C15" || k == "C16" ? hmix(p.sig(), hbytes(p.text().data(), p.text().size())) : p.sig()); sample(p); }
}

static bool wants_oob(const std::string &k) { return k == "C11" || k == "C19"; }
static std::string jesc(const std::string &s) { std::string o; for(char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n"; else o += c; } return o; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

int main(int argc, char **argv)
{
	rt::init(); rt::on_violation = on_violation; setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string cmd = argc > 1 ? argv[1] : "";
	if(cmd == "batch" && argc >= 8)
	{
		/* batch prop seed start stride count seconds [viol] [hashes] [obs] */
		std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10); double limit = atof(argv[7]);
		if(argc > 8) viol_path = argv[8];
		if(argc > 10) obs_out = fopen(argv[10], "w");
		double t0 = now(); uint64_t done = 0;
		for(; done < count; done++)
		{
			if(limit > 0 && now() - t0 > limit) break;
			cur_idx = start + done * stride; Plan p; gen_plan(prop, seed, cur_idx, p); p.expand = !p.lengthy; p.xseed = hmix(seed, cur_idx) >> 8; p.c.oob = wants_oob(prop);
			printf("@%llu\r", (unsigned long long)cur_idx);
			check_plan(p);
		}
		cur_plan = nullptr;
		if(argc > 9 && strcmp(argv[9], "-")) { FILE *f = fopen(argv[9], "wb"); for(uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); }
		if(obs_out) fclose(obs_out);
		std::ostringstream j; j << "\nSTATS {\"plans\":" << done << ",\"evals\":" << evals << ",\"distinct\":" << distinct.size() << ",\"ticks\":" << total_ticks << ",\"switches\":" << total_switches << ",\"preempt_in_lib\":" << total_preempt << ",\"sim_seconds\":" << sim_seconds << ",\"max_steps\":" << max_steps << ",\"worst_budget\":" << worst_budget << ",\"worst_scaling\":" << worst_scaling << ",\"seconds\":" << now() - t0;
		j << ",\"stats\":{"; bool f = true; for(auto &i : rt::stats) { j << (f ? "" : ",") << "\"" << i.first << "\":" << i.second; f = false; } j << "},\"cover\":{"; f = true; for(auto &i : cover) { j << (f ? "" : ",") << "\"" << i.first << "\":" << i.second; f = false; }
		j << "},\"samples\":["; for(size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << "\"" << jesc(samples[i]) << "\""; j << "]}";
		puts(j.str().c_str()); return 0;
	}
	if(cmd == "plan" && argc >= 5) { Plan p; gen_plan(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), p); fputs(p.text().c_str(), stdout); return 0; }
	if(cmd == "exec" && argc >= 3)
	{
		std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); Plan p; if(!f || !p.parse(b.str())) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 2; }
		if(argc > 3) viol_path = argv[3];
		p.c.oob = wants_oob(p.prop); if(argc > 4) obs_out = fopen(argv[4], "w");
		check_plan(p); if(obs_out) fclose(obs_out); printf("OK evals=%llu\n", (unsigned long long)evals); return 0;
	}
	fprintf(stderr, "usage: ksim batch PROP SEED START STRIDE COUNT SECONDS [VIOL [HASHES [OBS]]] | plan PROP SEED IDX | exec FILE\n"); return 2;
}
