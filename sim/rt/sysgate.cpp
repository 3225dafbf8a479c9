#include "sysgate.h"
#include "core.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <random>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

// the only place whose system calls the filter lets through unexamined
__asm__(
	".text\n.p2align 12\n.globl sim_gate_page\nsim_gate_page:\n"
	".globl sim_raw6\nsim_raw6:\n"
	" mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n"
	".p2align 12\n");
extern "C" char sim_gate_page[];
extern "C" long sim_raw6 (long nr, long a, long b, long c, long d, long e, long f);

namespace sim
{
static inline long raw (long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return sim_raw6(nr, a, b, c, d, e, f); }

struct Ev
{
	enum Type { WRITE, TRUNC, SYNC, CREATE, RENAME, UNLINK, DIRSYNC } type;
	uint64_t ino;
	uint64_t off, len;
	uint64_t data; // offset into the data arena
	char n1[64], n2[64];
};
struct Arm { int cat; long n; int kind; long arg; bool fired; };
static const int MAXEV = 4096, MAXARM = 64;
static const size_t DATA = 64u << 20;
static const int MAXFD = 256;
struct Sh
{
	int nev;
	uint64_t ndata;
	int narm;
	long calls[FC_N];
	bool fired, error, lost, full;
	Arm arm[MAXARM];
	Ev ev[MAXEV];
	char data[DATA];
};
static Sh* S = nullptr;
static char root[64];
static size_t rootlen = 0;
static bool installed = false, quiet = false;
// per process: which descriptors are files of the simulated disk
static struct { bool used; bool wr; bool append; bool dir; uint64_t ino; } fds[MAXFD];

static bool is_sim_path (int dirfd, const char* p)
{
	if (!rootlen || !p) return false;
	if (p[0] == '/') return 0 == strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0);
	if (dirfd == AT_FDCWD) return true; // the working directory is the scratch directory
	return dirfd >= 0 && dirfd < MAXFD && fds[dirfd].used && fds[dirfd].dir;
}
static const char* base (const char* p)
{
	const char* b = p;
	for (const char* q = p; *q; q++) if (*q == '/' && q[1]) b = q + 1;
	return b;
}
static Ev* add_ev (Ev::Type t)
{
	if (S->nev >= MAXEV) { harness_error("storage log full"); }
	Ev* e = &S->ev[S->nev++];
	memset(e, 0, sizeof *e);
	e->type = t;
	return e;
}

static const char* const catname[FC_N] = {"open", "read", "write", "close", "sync", "rename", "other", "any"};

static Arm* pick_fault (int cat)
{
	if (quiet) return nullptr;
	long n = S->calls[cat]++, g = S->calls[FC_ANY]++;
	for (int i = 0; i < S->narm; i++)
	{
		Arm& a = S->arm[i];
		if (a.fired) continue;
		if ((a.cat == cat && a.n == n) || (a.cat == FC_ANY && a.n == g)) return &a;
	}
	return nullptr;
}
static void note_fired (Arm* a, int cat, const char* what)
{
	a->fired = true;
	S->fired = true;
	static char names[FC_N][FK_N][40];
	char* nm = names[cat][a->kind];
	if (!nm[0]) snprintf(nm, 40, "fault.%s-%s", catname[cat], what);
	count(nm);
}
[[noreturn]] static void crash () { raw(SYS_exit_group, 42); __builtin_unreachable(); }

static void apply_write (int fd, const char* buf, size_t n, long off)
{
	// log then perform
	Ev* e = add_ev(Ev::WRITE);
	e->ino = fds[fd].ino;
	uint64_t pos;
	if (off >= 0) pos = off;
	else
	{
		if (fds[fd].append) { struct stat st; raw(SYS_fstat, fd, (long) &st); pos = st.st_size; }
		else pos = raw(SYS_lseek, fd, 0, SEEK_CUR);
	}
	e->off = pos;
	e->len = n;
	if (S->ndata + n > DATA) harness_error("storage log data full");
	memcpy(S->data + S->ndata, buf, n);
	e->data = S->ndata;
	S->ndata += n;
	long done = 0;
	while (done < (long) n)
	{
		long r = off >= 0 ? raw(SYS_pwrite64, fd, (long) buf + done, n - done, off + done) : raw(SYS_write, fd, (long) buf + done, n - done);
		if (r <= 0) harness_error("real disk write failed");
		done += r;
	}
}

static long do_write (int fd, const char* buf, size_t n, long off)
{
	Arm* a = pick_fault(FC_WRITE);
	if (S->full && !quiet) { count("fault.disk-still-full"); S->error = S->lost = true; return -ENOSPC; }
	if (a && n > 0)
	{
		size_t part = n > 1 ? 1 + (size_t) (a->arg < 0 ? 0 : a->arg) % (n - 1) : 0;
		switch (a->kind)
		{
			case FK_EIO: note_fired(a, FC_WRITE, "EIO"); S->error = S->lost = true; return -EIO;
			case FK_ENOSPC: note_fired(a, FC_WRITE, "ENOSPC"); S->error = S->lost = true; return -ENOSPC;
			case FK_EINTR: note_fired(a, FC_WRITE, "EINTR"); return -EINTR;
			case FK_SHORT: if (n > 1) { note_fired(a, FC_WRITE, "short"); n = part; } break;
			case FK_FULL:
				note_fired(a, FC_WRITE, "disk-full");
				S->full = true;
				S->error = S->lost = true;
				if (n > 1 && a->arg % 2) { apply_write(fd, buf, part, off); return part; }
				return -ENOSPC;
			case FK_CRASH_BEFORE: note_fired(a, FC_WRITE, "crash-before"); crash();
			case FK_CRASH_TORN: note_fired(a, FC_WRITE, "crash-torn"); if (part) apply_write(fd, buf, part, off); crash();
			case FK_CRASH_AFTER: note_fired(a, FC_WRITE, "crash-after"); apply_write(fd, buf, n, off); crash();
			default: break;
		}
	}
	apply_write(fd, buf, n, off);
	return (long) n;
}

static long do_read (int fd, char* buf, size_t n, long off)
{
	Arm* a = pick_fault(FC_READ);
	if (a)
	{
		switch (a->kind)
		{
			case FK_EIO: note_fired(a, FC_READ, "EIO"); S->error = true; return -EIO;
			case FK_EINTR: note_fired(a, FC_READ, "EINTR"); return -EINTR;
			case FK_SHORT: if (n > 1) { note_fired(a, FC_READ, "short"); n = 1 + (size_t) a->arg % (n - 1); } break;
			case FK_CRASH_BEFORE: note_fired(a, FC_READ, "crash-before"); crash();
			default: break;
		}
	}
	return off >= 0 ? raw(SYS_pread64, fd, (long) buf, n, off) : raw(SYS_read, fd, (long) buf, n);
}

static long generic_fault (int cat, bool write_side, bool& crash_after)
{
	crash_after = false;
	Arm* a = pick_fault(cat);
	if (!a) return 0;
	switch (a->kind)
	{
		case FK_EIO: note_fired(a, cat, "EIO"); S->error = true; if (write_side) S->lost = true; return -EIO;
		case FK_ENOSPC: if (cat == FC_READ) break; note_fired(a, cat, "ENOSPC"); S->error = true; if (write_side) S->lost = true; return -ENOSPC;
		case FK_EACCES: if (cat != FC_OPEN) break; note_fired(a, cat, "EMFILE"); S->error = true; if (write_side) S->lost = true; return -EMFILE;
		case FK_EINTR: if (cat != FC_SYNC && cat != FC_OPEN) break; if (cat == FC_OPEN) break; note_fired(a, cat, "EINTR"); S->error = true; S->lost = true; return -EINTR;
		case FK_CRASH_BEFORE: note_fired(a, cat, "crash-before"); crash();
		case FK_CRASH_TORN:
		case FK_CRASH_AFTER: note_fired(a, cat, "crash-after"); crash_after = true; break;
		default: break;
	}
	return 0;
}

static long do_open (int dirfd, const char* path, int flags, int mode)
{
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	bool ca;
	long err = generic_fault(FC_OPEN, wr, ca);
	if (err) return err;
	if (wr && S->full && !quiet && (flags & O_CREAT))
	{
		// a full disk cannot hold a new file, existing files can be opened
		struct stat st;
		if (raw(SYS_newfstatat, dirfd, (long) path, (long) &st, 0) < 0) { count("fault.disk-still-full"); S->error = S->lost = true; return -ENOSPC; }
	}
	struct stat before;
	bool existed = raw(SYS_newfstatat, dirfd, (long) path, (long) &before, 0) == 0;
	long fd = raw(SYS_openat, dirfd, (long) path, flags, mode);
	if (fd >= 0 && fd < MAXFD)
	{
		struct stat st;
		raw(SYS_fstat, fd, (long) &st);
		fds[fd].used = true;
		fds[fd].wr = wr;
		fds[fd].append = flags & O_APPEND;
		fds[fd].dir = S_ISDIR(st.st_mode);
		fds[fd].ino = st.st_ino;
		if (!existed && (flags & O_CREAT))
		{
			Ev* e = add_ev(Ev::CREATE);
			e->ino = st.st_ino;
			snprintf(e->n1, sizeof e->n1, "%s", base(path));
		}
		else if (existed && (flags & O_TRUNC) && wr && before.st_size > 0)
		{
			Ev* e = add_ev(Ev::TRUNC);
			e->ino = st.st_ino;
			e->len = 0;
		}
	}
	if (ca) crash();
	return fd;
}
static long do_close (int fd)
{
	bool wr = fds[fd].wr;
	bool ca = false;
	long err = fds[fd].dir ? 0 : generic_fault(FC_CLOSE, wr, ca);
	fds[fd].used = false;
	raw(SYS_close, fd); // the descriptor is gone either way, as on Linux
	if (ca) crash();
	return err;
}
static long do_sync (int fd)
{
	bool ca;
	long err = generic_fault(FC_SYNC, true, ca);
	if (err) return err;
	if (!err)
	{
		Ev* e = add_ev(fds[fd].dir ? Ev::DIRSYNC : Ev::SYNC);
		e->ino = fds[fd].ino;
		count(fds[fd].dir ? "probe.fsync-dir" : "probe.fsync-file");
	}
	if (ca) crash();
	return err;
}
static long do_rename (int d1, const char* a, int d2, const char* b, int flags)
{
	bool ca;
	long err = generic_fault(FC_RENAME, true, ca);
	if (err) return err;
	long r = raw(SYS_renameat2, d1, (long) a, d2, (long) b, flags);
	if (r == 0)
	{
		Ev* e = add_ev(Ev::RENAME);
		snprintf(e->n1, sizeof e->n1, "%s", base(a));
		snprintf(e->n2, sizeof e->n2, "%s", base(b));
		count("probe.rename");
	}
	if (ca) crash();
	return r;
}
static long do_unlink (int d, const char* a, int flags)
{
	bool ca;
	long err = generic_fault(FC_OTHER, false, ca);
	if (err) return err;
	long r = raw(SYS_unlinkat, d, (long) a, flags);
	if (r == 0)
	{
		Ev* e = add_ev(Ev::UNLINK);
		snprintf(e->n1, sizeof e->n1, "%s", base(a));
	}
	if (ca) crash();
	return r;
}
static long do_trunc (int fd, uint64_t ino, long len)
{
	bool ca;
	long err = generic_fault(FC_OTHER, true, ca);
	if (err) return err;
	long r = raw(SYS_ftruncate, fd, len);
	if (r == 0)
	{
		Ev* e = add_ev(Ev::TRUNC);
		e->ino = ino;
		e->len = len;
	}
	if (ca) crash();
	return r;
}

static inline bool simfd (long fd) { return fd >= 0 && fd < MAXFD && fds[fd].used; }

static long dispatch (long nr, long a, long b, long c, long d, long e, long f)
{
	switch (nr)
	{
		case SYS_open: if (is_sim_path(AT_FDCWD, (const char*) a)) return do_open(AT_FDCWD, (const char*) a, (int) b, (int) c); break;
		case SYS_creat: if (is_sim_path(AT_FDCWD, (const char*) a)) return do_open(AT_FDCWD, (const char*) a, O_CREAT | O_WRONLY | O_TRUNC, (int) b); break;
		case SYS_openat: if (is_sim_path((int) a, (const char*) b)) return do_open((int) a, (const char*) b, (int) c, (int) d); break;
		case SYS_close: if (simfd(a)) return do_close((int) a); break;
		case SYS_read: if (simfd(a)) return do_read((int) a, (char*) b, c, -1); break;
		case SYS_pread64: if (simfd(a)) return do_read((int) a, (char*) b, c, d); break;
		case SYS_readv:
			if (simfd(a))
			{
				const struct iovec* v = (const struct iovec*) b;
				long tot = 0;
				for (long i = 0; i < c; i++)
				{
					if (!v[i].iov_len) continue;
					long r = do_read((int) a, (char*) v[i].iov_base, v[i].iov_len, -1);
					if (r < 0) return tot ? tot : r;
					tot += r;
					if (r < (long) v[i].iov_len) break;
				}
				return tot;
			}
			break;
		case SYS_write: if (simfd(a)) return do_write((int) a, (const char*) b, c, -1); break;
		case SYS_pwrite64: if (simfd(a)) return do_write((int) a, (const char*) b, c, d); break;
		case SYS_writev:
			if (simfd(a))
			{
				// one write call: gather
				const struct iovec* v = (const struct iovec*) b;
				size_t tot = 0;
				for (long i = 0; i < c; i++) tot += v[i].iov_len;
				char* g = (char*) raw(SYS_mmap, 0, tot ? tot : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				size_t k = 0;
				for (long i = 0; i < c; i++) { memcpy(g + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
				long r = do_write((int) a, g, tot, -1);
				raw(SYS_munmap, (long) g, tot ? tot : 1);
				return r;
			}
			break;
		case SYS_fsync: case SYS_fdatasync: if (simfd(a)) return do_sync((int) a); break;
		case SYS_rename: if (is_sim_path(AT_FDCWD, (const char*) a)) return do_rename(AT_FDCWD, (const char*) a, AT_FDCWD, (const char*) b, 0); break;
		case SYS_renameat: if (is_sim_path((int) a, (const char*) b)) return do_rename((int) a, (const char*) b, (int) c, (const char*) d, 0); break;
		case SYS_renameat2: if (is_sim_path((int) a, (const char*) b)) return do_rename((int) a, (const char*) b, (int) c, (const char*) d, (int) e); break;
		case SYS_unlink: if (is_sim_path(AT_FDCWD, (const char*) a)) return do_unlink(AT_FDCWD, (const char*) a, 0); break;
		case SYS_unlinkat: if (is_sim_path((int) a, (const char*) b)) return do_unlink((int) a, (const char*) b, (int) c); break;
		case SYS_ftruncate: if (simfd(a)) return do_trunc((int) a, fds[a].ino, b); break;
		case SYS_dup: case SYS_dup2: case SYS_dup3:
		{
			long r = raw(nr, a, b, c, d, e, f);
			if (r >= 0 && r < MAXFD && simfd(a)) fds[r] = fds[a];
			return r;
		}
		default: break;
	}
	return raw(nr, a, b, c, d, e, f);
}

static void on_sigsys (int, siginfo_t* si, void* uc)
{
	greg_t* g = ((ucontext_t*) uc)->uc_mcontext.gregs;
	int saved = errno;
	g[REG_RAX] = dispatch(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
	errno = saved;
}

void gate_install ()
{
	if (installed) return;
	installed = true;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sigsys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
	sigaction(SIGSYS, &sa, nullptr);
	static const int nrs[] = {SYS_open, SYS_creat, SYS_openat, SYS_close, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev,
		SYS_fsync, SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_ftruncate, SYS_dup, SYS_dup2, SYS_dup3};
	const int n = sizeof nrs / sizeof *nrs;
	std::vector<struct sock_filter> f;
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned) offsetof(struct seccomp_data, nr)));
	for (int i = 0; i < n; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) nrs[i], (unsigned char) (n - i), 0));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned) offsetof(struct seccomp_data, instruction_pointer)));
	f.push_back(BPF_STMT(BPF_ALU | BPF_AND | BPF_K, 0xfffff000));
	f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) ((uintptr_t) sim_gate_page & 0xffffffff), 0, 1));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	struct sock_fprog p = {(unsigned short) f.size(), f.data()};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) harness_error("cannot install the system-call filter: %s", strerror(errno));
}

static void wipe (bool rmroot)
{
	quiet = true;
	DIR* d = opendir(root);
	if (d)
	{
		while (struct dirent* e = readdir(d))
		{
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			char p[512];
			snprintf(p, sizeof p, "%s/%s", root, e->d_name);
			raw(SYS_unlink, (long) p);
		}
		closedir(d);
	}
	if (rmroot) raw(SYS_rmdir, (long) root);
	quiet = false;
}

void fs_open_disk ()
{
	if (!S) S = (Sh*) shared_alloc(sizeof(Sh));
	// one directory per worker process, reused by its runs
	snprintf(root, sizeof root, "/tmp/simdisk.%d", (int) getppid());
	mkdir(root, 0700);
	rootlen = strlen(root);
	if (chdir(root)) harness_error("cannot enter %s", root);
	wipe(false);
	S->nev = 0;
	S->ndata = 0;
	S->full = false;
	fs_arm();
	gate_install();
}
void fs_close_disk ()
{
	if (!rootlen) return;
	if (chdir("/")) {}
	wipe(true);
	rootlen = 0;
}
const char* fs_root () { return root; }
void fs_arm ()
{
	S->narm = 0;
	memset(S->calls, 0, sizeof S->calls);
	S->fired = S->error = S->lost = S->full = false;
}
void fs_fault (int cat, long n, int kind, long arg)
{
	if (S->narm >= MAXARM) return;
	Arm& a = S->arm[S->narm++];
	a.cat = cat;
	a.n = n;
	a.kind = kind;
	a.arg = arg;
	a.fired = false;
}
bool fs_fault_fired () { return S->fired; }
bool fs_error_returned () { return S->error; }
bool fs_write_lost () { return S->lost; }
long fs_calls (int cat) { return S->calls[cat]; }
void fs_quiet (bool on) { quiet = on; }

// ---- crash images -----------------------------------------------------------------------------
struct DInode { std::string content; };
static std::map<uint64_t, std::string>* dur_data = nullptr;   // durable content per inode
static std::map<std::string, uint64_t>* dur_dir = nullptr;    // durable names

static std::string slurp (const char* p)
{
	std::string s;
	long fd = raw(SYS_open, (long) p, O_RDONLY, 0);
	if (fd < 0) return s;
	char b[8192];
	long n;
	while ((n = raw(SYS_read, fd, (long) b, sizeof b)) > 0) s.append(b, n);
	raw(SYS_close, fd);
	return s;
}

void fs_make_durable ()
{
	if (!dur_data) { dur_data = new std::map<uint64_t, std::string>(); dur_dir = new std::map<std::string, uint64_t>(); }
	dur_data->clear();
	dur_dir->clear();
	DIR* d = opendir(root);
	while (struct dirent* e = d ? readdir(d) : nullptr)
	{
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		struct stat st;
		std::string p = std::string(root) + "/" + e->d_name;
		if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) continue;
		(*dur_dir)[e->d_name] = st.st_ino;
		(*dur_data)[st.st_ino] = slurp(p.c_str());
	}
	if (d) closedir(d);
	S->nev = 0;
	S->ndata = 0;
}

static void put (std::string& s, uint64_t off, const char* p, size_t n)
{
	if (s.size() < off + n) s.resize(off + n, '\0');
	memcpy(&s[off], p, n);
}

void fs_power_loss (uint64_t seed)
{
	Rng rng(seed);
	count("fault.power-loss");
	std::map<uint64_t, std::string> data = *dur_data;
	std::map<std::string, uint64_t> dir = *dur_dir;
	// data reaches the platter per file up to its last sync; later writes survive whole, torn or not at all
	std::map<uint64_t, int> last_sync;
	int last_dirsync = -1;
	for (int i = 0; i < S->nev; i++)
	{
		if (S->ev[i].type == Ev::SYNC) last_sync[S->ev[i].ino] = i;
		if (S->ev[i].type == Ev::DIRSYNC) last_dirsync = i;
	}
	int style = (int) rng.below(4); // 0: nothing unsynced survives, 1: everything, 2: random per event, 3: names survive, data does not
	std::vector<int> dirops;
	for (int i = 0; i < S->nev; i++)
	{
		Ev& e = S->ev[i];
		bool synced = last_sync.count(e.ino) && last_sync[e.ino] > i;
		bool keep = synced || style == 1 || (style == 2 && rng.chance(0.5));
		switch (e.type)
		{
			case Ev::WRITE:
			{
				size_t n = e.len;
				if (!synced && style == 2 && keep && rng.chance(0.4) && n > 1) { n = 1 + rng.below(n - 1); count("fault.torn-write-on-power-loss"); }
				if (keep) put(data[e.ino], e.off, S->data + e.data, n);
				else count("fault.write-lost-on-power-loss");
				break;
			}
			case Ev::TRUNC: if (keep || (style == 3)) data[e.ino].resize(e.len, '\0'); break;
			case Ev::CREATE: data[e.ino]; dirops.push_back(i); break;
			case Ev::RENAME: case Ev::UNLINK: dirops.push_back(i); break;
			default: break;
		}
	}
	// directory operations survive in order, at least up to the last directory sync
	size_t must = 0;
	for (size_t k = 0; k < dirops.size(); k++) if (dirops[k] < last_dirsync) must = k + 1;
	size_t upto = style == 1 || style == 3 ? dirops.size() : style == 0 ? must : must + rng.below(dirops.size() - must + 1);
	for (size_t k = 0; k < upto; k++)
	{
		Ev& e = S->ev[dirops[k]];
		if (e.type == Ev::CREATE) dir[e.n1] = e.ino;
		else if (e.type == Ev::UNLINK) dir.erase(e.n1);
		else { auto it = dir.find(e.n1); if (it != dir.end()) { uint64_t ino = it->second; dir.erase(it); dir[e.n2] = ino; } }
	}
	if (upto < dirops.size()) count("fault.name-change-lost-on-power-loss");
	wipe(false);
	for (auto& p : dir)
	{
		std::string path = std::string(root) + "/" + p.first;
		long fd = raw(SYS_open, (long) path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		const std::string& c = data[p.second];
		size_t k = 0;
		while (k < c.size()) { long r = raw(SYS_write, fd, (long) c.data() + k, c.size() - k); if (r <= 0) harness_error("crash image write failed"); k += r; }
		raw(SYS_close, fd);
	}
	S->full = false;
	fs_make_durable();
}

// ---- clock ------------------------------------------------------------------------------------
static bool clock_on = false;
static double clk = 1500000000.0, clkstep = 0;
static long creads = 0;
void clock_sim (bool on) { clock_on = on; }
void clock_set (double n) { clk = n; }
double clock_get () { return clk; }
void clock_step (double s) { clkstep = s; }
long clock_reads () { return creads; }
static double clock_read () { double r = clk; clk += clkstep; creads++; sim_time(clkstep > 0 ? clkstep : 0); return r; }
}

extern "C"
{
int clock_gettime (clockid_t c, struct timespec* ts)
{
	if (!sim::clock_on || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC))
	{
		long r = sim_raw6(SYS_clock_gettime, c, (long) ts, 0, 0, 0, 0);
		if (r < 0) { errno = (int) -r; return -1; }
		return 0;
	}
	double v = sim::clock_read();
	ts->tv_sec = (time_t) v;
	ts->tv_nsec = (long) ((v - (double) ts->tv_sec) * 1e9);
	return 0;
}
int gettimeofday (struct timeval* tv, void*)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time (time_t* t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
clock_t clock (void)
{
	struct timespec ts;
	clock_gettime(sim::clock_on ? CLOCK_REALTIME : CLOCK_PROCESS_CPUTIME_ID, &ts);
	return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
}
