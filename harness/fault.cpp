// Fault explorer: the real main() in a child process whose system calls and allocations are under control.
// For every operation of a run and every kind of fault the run is repeated with that fault at that operation (C22).
#include "prog.hpp"
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <csignal>
#include <cstddef>
#include <climits>

// ------------------------------------------------------------------------------------------------ control of the child
// the only system call instruction that the filter lets through for the calls under control
extern "C" long fi_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char fi_syscall_end[];
asm(".text\n.globl fi_syscall\n.type fi_syscall,@function\nfi_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl fi_syscall_end\nfi_syscall_end:\n ret\n");

enum Kind : int { NONE, OPEN_IN, OPEN_OUT, READ, WRITE, CLOSE_IN, CLOSE_OUT, LOG, OTHER };
static const char* KindName[] = {"-", "open input", "open output", "read", "write", "close input", "close output", "write log", "other"};
enum Mode : int { BASE, KILL, TORN, ERR, STICKY, SHORT, FULL, INTR, ALLOC, ALLOCALL };
static const char* ModeName[] = {"none", "killed before it", "killed in the middle of it", "fails once", "fails, as all later ones", "short", "short, all later ones fail", "interrupted", "allocation fails", "allocations fail from here"};

struct Op { int kind; long len; };
struct Shared
{
	int mode, err, part; long target;       // the fault: mode at operation number target; part of a write: 0 one byte, 1 half, 2 all but one, -1 .. byte count in bytes
	long bytes;
	long ops, allocs; bool hit; bool tripped; long fd[64]; Op log[4096];
};
static Shared* sh;
static bool armed = false, counting = false;

// allocations: the k-th one fails
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
static bool AllocFails() { if (!counting) return false; const long k = sh->allocs++; if ((sh->mode == ALLOC && k == sh->target) || (sh->mode == ALLOCALL && k >= sh->target)) { sh->hit = true; return true; } return false; }
extern "C" void* malloc(size_t n) { if (AllocFails()) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { if (AllocFails()) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { if (AllocFails()) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }

static long Portion(long len) { if (sh->bytes >= 0) return sh->bytes; return sh->part == 0 ? 1 : sh->part == 1 ? len / 2 : len - 1; }
[[noreturn]] static void Die() { fi_syscall(SYS_kill, fi_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for (;;) {} }

static void OnSys(int, siginfo_t* si, void* ctx)
{
	auto& g = ((ucontext_t*)ctx)->uc_mcontext.gregs; const long nr = si->si_syscall;
	const long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
	const auto real = [&] { return fi_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]); };
	const auto ours = [&](long fd) { return fd >= 0 && fd < 64 ? sh->fd[fd] : 0; };
	int kind = NONE; long len = 0; const char* path = nullptr; long flags = 0;
	switch (nr)
	{
	case SYS_open: path = (const char*)a[0]; flags = a[1]; break;
	case SYS_creat: path = (const char*)a[0]; flags = O_WRONLY; break;
	case SYS_openat: path = (const char*)a[1]; flags = a[2]; break;
	case SYS_read: case SYS_readv: case SYS_pread64: if (ours(a[0])) { kind = READ; len = nr == SYS_readv ? 1 << 20 : a[2]; } break;
	case SYS_write: case SYS_writev: case SYS_pwrite64: if (a[0] == 1) kind = LOG; else if (ours(a[0])) kind = WRITE; if (kind) { if (nr == SYS_writev) for (long q = 0; q < a[2]; q++) len += (long)((iovec*)a[1])[q].iov_len; else len = a[2]; } break;
	case SYS_close: if (ours(a[0])) kind = ours(a[0]) == 1 ? CLOSE_IN : CLOSE_OUT; break;
	case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: if (ours(a[0])) kind = OTHER; break;
	case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_mkdir: case SYS_mkdirat: case SYS_truncate: kind = OTHER; break;
	}
	if (path && path[0] != '/') kind = (flags & (O_WRONLY | O_RDWR)) ? OPEN_OUT : OPEN_IN;
	if (!kind || !armed) { g[REG_RAX] = real(); return; }
	const long k = sh->ops++;
	if (k < 4096) sh->log[k] = {kind, len};
	const auto done = [&](long r) { g[REG_RAX] = r; };
	// performs only the first n bytes of a transfer
	const auto some = [&](long n) {
		if (nr == SYS_writev || nr == SYS_readv) { auto* v = (iovec*)a[1]; long left = n, sum = 0; for (long q = 0; q < a[2] && left > 0; q++) { const long m = std::min<long>(left, (long)v[q].iov_len); const long r = fi_syscall(nr == SYS_writev ? SYS_write : SYS_read, a[0], (long)v[q].iov_base, m, 0, 0, 0); if (r < 0) return sum ? sum : r; sum += r; left -= r; if (r < m) break; } return sum; }
		return fi_syscall(nr, a[0], a[1], n, a[3], a[4], a[5]);
	};
	const bool data = kind == READ || kind == WRITE || kind == LOG;
	if (k == sh->target)
		switch (sh->mode)
		{
		case KILL: sh->hit = true; Die();
		case TORN: if (data && Portion(len) > 0 && Portion(len) < len) { sh->hit = true; some(Portion(len)); Die(); } break;
		case ERR: case STICKY: sh->hit = true; sh->tripped = sh->mode == STICKY; if (kind == CLOSE_IN || kind == CLOSE_OUT) { real(); sh->fd[a[0]] = 0; } done(-sh->err); return;
		case SHORT: case FULL: if (data && Portion(len) > 0 && Portion(len) < len) { sh->hit = true; sh->tripped = sh->mode == FULL; done(some(Portion(len))); return; } break;
		case INTR: if (data || kind == OPEN_OUT || kind == OPEN_IN) { sh->hit = true; done(-EINTR); return; } break;
		default: break;
		}
	else if (sh->tripped && k > sh->target && sh->log[std::min<long>(sh->target, 4095)].kind == kind) { if (kind == CLOSE_IN || kind == CLOSE_OUT) { real(); sh->fd[a[0]] = 0; } done(-sh->err); return; }
	const long r = real();
	if ((kind == OPEN_IN || kind == OPEN_OUT) && r >= 0 && r < 64) sh->fd[r] = kind == OPEN_IN ? 1 : 2;
	if ((kind == CLOSE_IN || kind == CLOSE_OUT) && a[0] < 64) sh->fd[a[0]] = 0;
	done(r);
}
static bool Filter()
{
	static const int calls[] = {SYS_open, SYS_creat, SYS_openat, SYS_read, SYS_readv, SYS_pread64, SYS_write, SYS_writev, SYS_pwrite64, SYS_close, SYS_fsync, SYS_fdatasync, SYS_ftruncate,
		SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_truncate};
	const uint64_t ip = (uint64_t)fi_syscall_end; std::vector<sock_filter> f;
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch)));
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
	const int n = (int)(sizeof calls / sizeof *calls);
	for (int k = 0; k < n; k++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[k], (unsigned char)(n - k), 0));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)));
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4));
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	struct sigaction sa {}; sa.sa_sigaction = OnSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; if (sigaction(SIGSYS, &sa, nullptr)) return false;
	sock_fprog p{(unsigned short)f.size(), f.data()};
	return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}

// ------------------------------------------------------------------------------------------------ one execution
using Files = std::map<std::string, std::string>;
static std::string Slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static void Spill(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
struct Outcome { int status = 0; bool exited = false; bool reported = false; std::string out; Files files; bool dir = true; };

static Files ReadDir()
{
	Files r;
	if (DIR* d = opendir("result")) { while (auto* e = readdir(d)) if (e->d_name[0] != '.') r[e->d_name] = Slurp(std::string("result/") + e->d_name); closedir(d); }
	return r;
}
static void Prepare(const Files& before) { mkdir("result", 0755); Wipe(); for (auto& f : before) Spill("result/" + f.first, f.second); unlink("log"); }

// runs the program in a child; the fault is described by sh. Afterwards the files are in `files`.
static Outcome Execute()
{
	sh->ops = sh->allocs = 0; sh->hit = sh->tripped = false; memset(sh->fd, 0, sizeof sh->fd);
	const int log = open("log", O_RDWR | O_CREAT | O_TRUNC, 0600), null = open("/dev/null", O_RDWR);
	fflush(stdout);
	const pid_t pid = fork();
	if (pid < 0) throw std::runtime_error("fork");
	if (pid == 0)
	{
		dup2(log, 1); dup2(null, 2); close(log); close(null); alarm(60);
		const char* argv[] = {"OpenMps", "in.xml", nullptr};
		if (!Filter()) _exit(99);
		armed = true; counting = sh->mode == ALLOC || sh->mode == ALLOCALL || sh->mode == BASE;
		int rc;
		try { rc = openmps_main(2, argv); } catch (...) { counting = false; rc = 77; }
		counting = false; armed = false;
		_exit(rc);
	}
	close(log); close(null);
	Outcome o; if (waitpid(pid, &o.status, 0) != pid) throw std::runtime_error("waitpid");
	o.exited = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0;
	if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 99) throw std::runtime_error("cannot install the system call filter");
	o.out = Slurp("log"); o.reported = !o.exited || o.out.find("ERROR") != std::string::npos;
	o.files = ReadDir();
	return o;
}

// ------------------------------------------------------------------------------------------------ scenes
struct Scene { Doc doc; Files before; std::string desc; std::size_t offset = 0, n = 3; };
static Scene MakeScene(uint64_t i)
{
	H::Choices ch(i); const auto kind = ch(5); const bool stale = ch(2); const auto start = ch(2);
	Scene s; Env e; e.eps = 1e-10; e.courant = 0.3; for (int d = 0; d < D; d++) { e.min[d] = -4; e.max[d] = 8; }
	std::vector<P> ps;
	const auto put = [&](double a, double b, int type, double u) { P p; p.x = V0(); p.u = V0(); p.x[0] = a; p.x[D - 1] = b; p.u[0] = u; p.type = type; ps.push_back(p); };
	switch (kind)
	{
	case 0: put(0.13, 0.21, F, 0.5); put(0.9, 0.3, F, -0.5); put(0.4, -0.7, W, 0); s.desc = "three particles"; break;
	case 1: s.desc = "no particles"; break;
	case 2: for (int k = 0; k < 9; k++) put(0.8 * (k % 3) + 0.01 * k, 0.83 * (k / 3), k < 3 ? (k % 2 ? W : DM) : F, 0.1 * k); put(0, 0, DIS, 0); s.desc = "a small tank"; break;
	case 3: for (int k = 0; k < 260; k++) put(-3.5 + 0.031 * k, -3.4 + 0.9 * (k % 12), DIS, 0.001234567 * k); s.desc = "an output longer than a buffer"; s.n = 1; break;
	default: { const int m = D == 3 ? 90 : 40; for (int k = 0; k < m; k++) { const double a = 6.283185307179586 * k / m; P p; p.x = V0(); p.u = V0(); for (auto& v : p.x) v = 2.05; p.x[0] += 1.2 * std::cos(a); p.x[D - 1] += 1.2 * std::sin(a); p.u[0] = -6 * std::cos(a); p.u[D - 1] = -6 * std::sin(a); p.type = F; ps.push_back(p); }
		e.g = 0; e.nu = 0; e.l0 = 0.1; e.re = 2.1; e.courant = 0.1; s.n = 6; s.desc = "fluid flowing together until a block is overcrowded"; }
	}
	s.offset = start ? 7 : 0; const double iv = 0.05;
	s.doc = MakeDoc(e, iv * (double)s.offset, iv * (double)(s.offset + s.n), iv, 2, Csv(ps));
	if (stale)
	{
		const std::string junk(20000, 'j'); s.desc += ", old results present";
		for (std::size_t k = 0; k <= s.n + 2; k++) s.before[Name(s.offset + k)] = k % 2 ? "old\n" : junk;
		s.before["notes.txt"] = "keep\n"; s.before["particles_99999.csv"] = "keep too\n"; if (s.offset) s.before[Name(s.offset - 1)] = "previous\n";
	}
	if (s.offset) s.desc += ", continued";
	return s;
}
static const uint64_t SCENES = 5 * 2 * 2;

struct Base { Outcome o; std::vector<Op> ops; long allocs; std::vector<std::string> order; };
static const Base& Baseline(uint64_t i, const Scene& s)
{
	static std::map<uint64_t, Base> cache; const auto it = cache.find(i); if (it != cache.end()) return it->second;
	Prepare(s.before); Spill("in.xml", s.doc.Xml()); *sh = Shared(); sh->mode = BASE; sh->target = -1;
	Base b; b.o = Execute(); b.ops.assign(sh->log, sh->log + std::min<long>(sh->ops, 4096)); b.allocs = sh->allocs;
	for (std::size_t k = 0; k <= s.n; k++) if (b.o.files.count(Name(s.offset + k)) && (!s.before.count(Name(s.offset + k)) || s.before.at(Name(s.offset + k)) != b.o.files[Name(s.offset + k)])) b.order.push_back(Name(s.offset + k)); else break;
	return cache[i] = b;
}

// an output that the log announces is complete (C26)
static bool Announcements(H::Ctx& c, const Base& b, const Outcome& o, const std::string& where)
{
	std::size_t complete = 0; while (complete < b.order.size() && o.files.count(b.order[complete]) && o.files.at(b.order[complete]) == b.o.files.at(b.order[complete])) complete++;
	const auto text = o.out.substr(0, o.out.find("!ERROR")); std::size_t q = 0;
	while ((q = text.find('#', q)) != std::string::npos)
	{
		const auto e = text.find('\n', q); if (e == std::string::npos) break; // this line is not complete
		const auto n = strtoull(text.c_str() + q + 1, nullptr, 10); q = e; const auto at = std::find(b.order.begin(), b.order.end(), Name(n));
		c.count("announced outputs");
		if (!c.expect(at != b.order.end() && (std::size_t)(at - b.order.begin()) < complete, where + H::fmt(": output %llu is announced, but not complete", n))) return false;
	}
	H::Hash h; h.u(complete); h.u((uint64_t)o.status); h.u(std::count(o.out.begin(), o.out.end(), '#')); c.outcome(h);
	return true;
}

// what must hold after any faulted run
static bool Contained(H::Ctx& c, const Scene& s, const Base& b, const Outcome& o, bool logFault, const std::string& where)
{
	// files that are not outputs of this run are untouched
	for (auto& f : s.before) if (std::find(b.order.begin(), b.order.end(), f.first) == b.order.end())
	{
		const auto it = o.files.find(f.first);
		if (!c.expect(it != o.files.end() && it->second == f.second, where + ": the foreign file " + f.first + " was changed")) return false;
	}
	for (auto& f : o.files) if (f.first.rfind("particles_", 0) == 0 && !s.before.count(f.first))
		if (!c.expect(std::find(b.order.begin(), b.order.end(), f.first) != b.order.end(), where + ": unexpected output file " + f.first)) return false;
	if (!c.expect(Slurp("in.xml") == s.doc.Xml(), where + ": the input file was changed")) return false;
	// complete outputs, at most one that is a part of what it should be, and none after it
	std::size_t k = 0; const auto want = [&](std::size_t q) -> const std::string& { return b.o.files.at(b.order[q]); };
	while (k < b.order.size() && o.files.count(b.order[k]) && o.files.at(b.order[k]) == want(k)) k++;
	const std::size_t complete = k;
	for (; k < b.order.size(); k++)
	{
		const auto it = o.files.find(b.order[k]); const auto old = s.before.find(b.order[k]);
		const bool untouched = old == s.before.end() ? it == o.files.end() : it != o.files.end() && it->second == old->second;
		if (untouched) continue;
		if (!c.expect(k == complete, where + ": output " + b.order[k] + " was written although " + b.order[complete] + " is not complete")) return false;
		if (!c.expect(it != o.files.end() && it->second.size() < want(k).size() && want(k).compare(0, it->second.size(), it->second) == 0,
			where + ": output " + b.order[k] + (it == o.files.end() ? " was removed" : " is not a part of what it should be: ..." + it->second.substr(it->second.size() > 120 ? it->second.size() - 120 : 0)))) return false;
	}
	// nothing is lost silently
	if (complete < b.order.size() && !c.expect(o.reported || logFault, where + ": output " + b.order[complete] + " is missing or incomplete, but the program ends as if all were well: " + o.out.substr(o.out.size() > 200 ? o.out.size() - 200 : 0))) return false;
	// nor is a failure of the computation (unless the log could not be written)
	if (!c.expect(o.reported || logFault || !b.o.reported, where + ": the failure of the computation is no longer reported")) return false;
	H::Hash h; h.u(complete); h.u(o.reported); h.u((uint64_t)o.status); c.outcome(h);
	return true;
}

static void Explore(H::Ctx& c, uint64_t scene, int mode, int err, int part, long every, uint64_t slice, uint64_t slices)
{
	const Scene s = MakeScene(scene); const Base& b = Baseline(scene, s);
	c.desc = H::fmt("%s: every operation %s", s.desc.c_str(), ModeName[mode]) + (mode == ERR || mode == STICKY || mode == FULL ? std::string(" (") + strerror(err) + ")" : "");
	if (!c.expect(b.o.exited && b.order.size() == s.n + 1 || b.o.reported, "the run without faults fails: " + b.o.out)) return;
	if (!c.expect(!b.order.empty() && (b.o.exited || !b.o.reported), "no output without faults")) return;
	Spill("in.xml", s.doc.Xml());
	const bool alloc = mode == ALLOC || mode == ALLOCALL; const long n = alloc ? b.allocs : (long)b.ops.size();
	for (long k = (long)slice; k < n; k += (long)slices)
	{
		const long len = alloc ? 0 : b.ops[k].len; const int kind = alloc ? NONE : b.ops[k].kind;
		const bool data = kind == READ || kind == WRITE || kind == LOG;
		// thorough: every number of bytes of a write
		const long reps = every && data && kind != READ ? len - 1 : 1;
		for (long q = 0; q < reps; q++)
		{
			Prepare(s.before); sh->mode = mode; sh->err = err; sh->part = part; sh->target = k; sh->bytes = every && kind != READ ? q + 1 : -1;
			const Outcome o = Execute(); c.transitions++;
			if (!sh->hit) continue;
			c.interesting(); c.count(std::string(alloc ? "allocation" : KindName[kind]) + ": " + ModeName[mode]);
			H::Hash h; h.u(scene); h.u((uint64_t)mode); h.u((uint64_t)err); h.u((uint64_t)k); h.u((uint64_t)(reps > 1 ? q : part)); c.state(h);
			const std::string where = H::fmt("%s %ld of %ld%s %s", alloc ? "allocation" : KindName[kind], k, n, data && sh->bytes >= 0 ? H::fmt(" (%ld of %ld bytes)", sh->bytes, len).c_str() : "", ModeName[mode]);
			const bool logFault = kind == LOG;
			if (prop == "C26") { if (!Announcements(c, b, o, where)) return; continue; }
			if (!Contained(c, s, b, o, logFault || mode == ALLOC || mode == ALLOCALL, where)) return;
			if ((mode == ALLOC || mode == ALLOCALL) && !o.reported) for (auto& f : b.order) if (!c.expect(o.files.count(f) && o.files.at(f) == b.o.files.at(f), where + ": output " + f + " is missing or incomplete, but the program ends as if all were well")) return;
			if (logFault && mode != KILL && mode != TORN) for (auto& f : b.order) if (!c.expect(o.files.count(f) && o.files.at(f) == b.o.files.at(f), where + ": output " + f + " suffers from a fault of the log")) return;
			if ((mode == SHORT || mode == INTR) && (kind == READ || kind == WRITE)) if (!c.expect(o.files == b.o.files, where + ": the program does not carry on after an incomplete transfer")) return;
			if ((mode == ERR || mode == STICKY) && (kind == READ || kind == OPEN_IN)) { if (!c.expect(o.reported && !o.exited, where + ": the input could not be read, but the program goes on")) return; for (auto& f : b.order) if (!c.expect(!o.files.count(f) || (s.before.count(f) && s.before.at(f) == o.files.at(f)), where + ": an output of an input that could not be read")) return; }
			// whatever was left behind, the same run afterwards gives the same results
			if (mode == KILL || mode == TORN || mode == FULL)
			{
				sh->mode = NONE; sh->target = -1; const Outcome again = Execute(); c.transitions++;
				if (!c.expect(again.files == b.o.files && again.exited, where + ": the run started again does not give the same results")) return;
			}
		}
	}
}

static std::vector<H::Family> Make(bool th)
{
	std::vector<H::Family> f;
	struct M { int mode, err, part; const char* name; };
	static const std::vector<M> modes{{KILL, 0, 0, "kill"}, {TORN, 0, 0, "torn-first"}, {TORN, 0, 1, "torn-half"}, {TORN, 0, 2, "torn-last"}, {ERR, ENOSPC, 0, "full-once"}, {ERR, EIO, 0, "io-once"}, {ERR, EACCES, 0, "denied"},
		{STICKY, ENOSPC, 0, "full"}, {STICKY, EIO, 0, "io"}, {SHORT, 0, 0, "short-first"}, {SHORT, 0, 1, "short-half"}, {SHORT, 0, 2, "short-last"}, {FULL, ENOSPC, 0, "part-first"}, {FULL, ENOSPC, 1, "part-half"}, {FULL, EDQUOT, 2, "part-last"}, {INTR, 0, 0, "interrupt"}};
	const uint64_t sl = 4;
	for (auto& m : modes) f.push_back({m.name, SCENES * sl, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto s = ch(sl), sc = ch(SCENES); if (!th && sc % 5 == 3 && ((m.mode != FULL && m.mode != TORN && m.mode != ERR) || sc / 5 != 1)) return; Explore(c, sc, m.mode, m.err, m.part, 0, s, sl); }});
	const uint64_t al = 16;
	f.push_back({"memory", SCENES * al, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto s = ch(al), sc = ch(SCENES); if (!th && sc >= 5) return; Explore(c, sc, ALLOC, 0, 0, 0, s, al); }});
	if (th)
	{
		f.push_back({"memory-all", SCENES * al, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto s = ch(al), sc = ch(SCENES); Explore(c, sc, ALLOCALL, 0, 0, 0, s, al); }});
		for (const int m : {TORN, SHORT, FULL}) f.push_back({m == TORN ? "torn-every" : m == SHORT ? "short-every" : "part-every", SCENES * al, [=](uint64_t i, H::Ctx& c) { H::Choices ch(i); const auto s = ch(al), sc = ch(SCENES); Explore(c, sc, m, ENOSPC, 0, 1, s, al); }});
	}
	return f;
}
int main(int argc, char** argv)
{
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	tzset();
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
	return H::Main(argc, argv, Make);
}
