// Simulated kernel. Everything the Kos runtime asks of the OS ends up here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "kernel.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <set>
#include <unordered_map>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdio_ext.h>
#include <time.h>
#include <unistd.h>

namespace sim {
extern int mem_nocheck;
void mark_harness_thread(int tid);


bool thr_done(int tid);
void *thr_sp(int tid);
char *thr_stack_top(int tid);

uint64_t disk_capacity = ~0ull;
uint32_t pipe_capacity = 65536;
bool pid_reuse;
int64_t  wall_offset_ns;
uint64_t n_eagain, n_execs, n_forks, n_resets, n_dgrams;

struct Pipe { std::string buf; int readers = 0, writers = 0; };

struct Addr {
    int family = 0; std::string ip; int port = 0;
    bool operator==(const Addr &o) const { return family == o.family && ip == o.ip && port == o.port; }
};

struct Sock {
    int domain = 0, type = 0;
    bool bound = false, listening = false, connected = false, closed = false;
    bool rd_shut = false, wr_shut = false, fin_seen = false, reset = false, dead_peer = false;
    Addr local, remote;
    Sock *peer = nullptr;
    std::string rx;
    size_t inflight = 0;
    uint64_t last_arrival = 0;
    uint32_t cap = 65536;
    std::deque<Sock *> accept_q;
    int backlog = 0;
    std::deque<std::pair<Addr, std::string>> dgrams;
    std::map<std::pair<int, int>, std::string> opts;
    uint64_t rcvtimeo = 0, sndtimeo = 0;
};

enum OKind { K_FILE, K_PIPE_R, K_PIPE_W, K_SOCK, K_OUT, K_ERR, K_IN };
struct OFile {
    OKind kind; int refs = 1; int id = 0;
    Node *node = nullptr; int64_t pos = 0; int flags = 0;
    Pipe *pipe = nullptr; Sock *sock = nullptr;
};
struct Fd { OFile *of = nullptr; bool cloexec = false; };
struct Proc {
    int pid = 0, ppid = 0;
    std::vector<Fd> fds;
    int state = 0; // 0 running, 1 zombie, 2 reaped
    int status = 0;
    bool stopped = false, stop_reported = false;
    bool execed = false;
    std::string cwd = "/";
    std::vector<std::string> argv, envp;
    int program = 0;
    bool kill_req = false; int kill_sig = 0;
    int tid = -1;
    bool in_branch = false;
    std::function<void()> body;
};

static Node *root;
static Proc *kos;
static std::map<int, Proc *> *procs;
static int next_pid;
static Proc *thrproc[256];
static std::string *g_out, *g_err, *g_in;
static size_t g_in_pos;
static uint64_t next_ino;
static int next_of_id;
static std::vector<Sock *> *socks;
static int next_port;
static std::vector<std::string> *g_env;
static char **g_envp;

static Proc *me() { Proc *p = thrproc[self()]; return p ? p : kos; }
static bool is_kos() { return me() == kos; }
// faults hit only the system under test, not the simulated environment
static unsigned kfault(FaultKind k, unsigned v = 1) { return is_kos() ? fault(k, v) : 0; }

// ---------------------------------------------------------------- file system
static std::vector<std::string> split(const std::string &p)
{
    std::vector<std::string> v; std::string cur;
    for (char c : p) { if (c == '/') { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
static std::string absol(const std::string &p) { return p.empty() || p[0] == '/' ? p : me()->cwd + "/" + p; }

static Node *walk(const std::string &path, bool follow, std::string *canon, int depth, Node **parent, std::string *leaf)
{
    if (depth > 8) { errno = ELOOP; return nullptr; }
    if (path.empty()) { errno = ENOENT; return nullptr; }
    std::vector<std::string> parts = split(absol(path));
    std::vector<std::pair<Node *, std::string>> st;
    st.push_back({root, ""});
    if (parent) *parent = nullptr;
    for (size_t i = 0; i < parts.size(); i++) {
        const std::string &c = parts[i];
        Node *d = st.back().first;
        if (d->type != Node::DIR_) { errno = ENOTDIR; return nullptr; }
        if (c == ".") continue;
        if (c == "..") { if (st.size() > 1) st.pop_back(); continue; }
        auto it = d->kids.find(c);
        if (it == d->kids.end()) {
            if (i + 1 == parts.size() && parent) { *parent = d; *leaf = c; }
            errno = ENOENT; return nullptr;
        }
        Node *n = it->second;
        if (n->type == Node::LINK_ && (follow || i + 1 < parts.size())) {
            std::string base;
            for (auto &s : st) if (!s.second.empty()) base += "/" + s.second;
            std::string t = n->target[0] == '/' ? n->target : base + "/" + n->target;
            std::string cn;
            Node *m = walk(t, true, &cn, depth + 1, nullptr, nullptr);
            if (!m) return nullptr;
            st.clear(); st.push_back({root, ""});
            Node *w = root;
            for (auto &q : split(cn)) { w = w->kids[q]; st.push_back({w, q}); }
            continue;
        }
        if (i + 1 == parts.size() && parent) { *parent = d; *leaf = c; }
        st.push_back({n, c});
    }
    if (canon) { canon->clear(); for (auto &s : st) if (!s.second.empty()) *canon += "/" + s.second; if (canon->empty()) *canon = "/"; }
    return st.back().first;
}

Node *fs_lookup(const std::string &path, bool follow) { return walk(path, follow, nullptr, 0, nullptr, nullptr); }
static Node *new_node(Node::Type t) { Node *n = new Node(); n->type = t; n->ino = ++next_ino; n->mtime = now_ns(); if (t == Node::DIR_) n->mode = 0755; return n; }
Node *fs_mkdir(const std::string &path)
{
    Node *d = root;
    for (auto &c : split(path)) { Node *&k = d->kids[c]; if (!k) k = new_node(Node::DIR_); d = k; }
    return d;
}
Node *fs_mkfile(const std::string &path, const std::string &data)
{
    size_t sl = path.rfind('/');
    Node *d = fs_mkdir(path.substr(0, sl));
    Node *&n = d->kids[path.substr(sl + 1)];
    if (!n) n = new_node(Node::FILE_);
    n->data = data;
    return n;
}
void fs_remove(const std::string &path)
{
    Node *p; std::string leaf;
    if (walk(path, false, nullptr, 0, &p, &leaf) && p) p->kids.erase(leaf);
}
void fs_load_real_dir(const std::string &real, const std::string &virt, const char *suffix)
{
    DIR *d = opendir(real.c_str());
    if (!d) harness_error("cannot open %s", real.c_str());
    std::set<std::string> names;
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name;
        size_t l = strlen(suffix);
        if (n.size() > l && n.compare(n.size() - l, l, suffix) == 0) names.insert(n);
    }
    closedir(d);
    for (auto &n : names) {
        FILE *f = fopen((real + "/" + n).c_str(), "rb");
        if (!f) harness_error("cannot read %s", n.c_str());
        std::string data; char buf[65536]; size_t r;
        while ((r = fread(buf, 1, sizeof buf, f)) > 0) data.append(buf, r);
        fclose(f);
        fs_mkfile(virt + "/" + n, data);
    }
}
static uint64_t used_rec(Node *n) { uint64_t u = n->data.size(); for (auto &k : n->kids) u += used_rec(k.second); return u; }
uint64_t fs_used() { return used_rec(root); }

// ---------------------------------------------------------------- descriptors
static OFile *get(int fd) { Proc *p = me(); if (fd < 0 || fd >= (int)p->fds.size() || !p->fds[fd].of) { errno = EBADF; return nullptr; } return p->fds[fd].of; }
static int alloc_fd(OFile *of, bool cloexec)
{
    Proc *p = me();
    for (size_t i = 0; i < p->fds.size(); i++) if (!p->fds[i].of) { p->fds[i] = Fd{of, cloexec}; return (int)i; }
    p->fds.push_back(Fd{of, cloexec});
    return (int)p->fds.size() - 1;
}
static OFile *new_of(OKind k) { OFile *o = new OFile(); o->kind = k; o->id = ++next_of_id; return o; }
static void sock_close(Sock *s);
static void drop_of(OFile *o)
{
    if (--o->refs) return;
    if (o->kind == K_PIPE_R) o->pipe->readers--;
    if (o->kind == K_PIPE_W) o->pipe->writers--;
    if (o->kind == K_FILE) { if (o->node->lock_owner == o->id) o->node->lock_owner = 0; o->node->opens--; }
    if (o->kind == K_SOCK) sock_close(o->sock);
    delete o;
}
static void close_all(Proc *p) { for (auto &f : p->fds) if (f.of) { OFile *o = f.of; f.of = nullptr; drop_of(o); } }

int open_fds() { int n = 0; for (auto &f : kos->fds) n += f.of != nullptr; return n; }
std::string describe_fds()
{
    static const char *const nm[] = {"file", "pipe-read", "pipe-write", "socket", "stdout", "stderr", "stdin"};
    std::string s;
    for (size_t i = 0; i < kos->fds.size(); i++) if (kos->fds[i].of) s += " " + std::to_string(i) + ":" + nm[kos->fds[i].of->kind];
    return s;
}
std::string &console_out() { return *g_out; }
std::map<int, std::pair<std::string, std::string>> *group_said;
std::string &console_err() { return *g_err; }
void set_stdin(const std::string &s) { *g_in = s; g_in_pos = 0; }

// ---------------------------------------------------------------- processes
static void on_child_exit(Proc *p, int status)
{
    close_all(p);
    p->state = 1;
    p->status = status;
    trace("process %d exits, status %x", p->pid, status);
    event_hash(0x9000000ull + p->pid * 65536 + status);
    if (p->ppid == kos->pid) post_signal(SIGCHLD);
}
int live_children() { int n = 0; for (auto &p : *procs) if (p.second->ppid == kos->pid && p.second->state != 2) n++; return n; }
int zombie_children() { int n = 0; for (auto &p : *procs) if (p.second->ppid == kos->pid && p.second->state == 1) n++; return n; }
int running_children() { int n = 0; for (auto &p : *procs) if (p.second->ppid == kos->pid && p.second->state == 0) n++; return n; }
int exited_children() { int n = 0; for (auto &p : *procs) if (p.second->ppid == kos->pid && p.second->state) n++; return n; }
std::vector<ProcInfo> children() { std::vector<ProcInfo> v; for (auto &p : *procs) if (p.second->ppid == kos->pid) v.push_back({p.first, p.second->state, p.second->status}); return v; }
bool kill_child(int pid, int sig)
{
    auto it = procs->find(pid);
    if (it == procs->end() || it->second->state) return false;
    if (sig == SIGCONT) { it->second->stopped = false; return true; }
    it->second->kill_req = true; it->second->kill_sig = sig;
    return true;
}

struct Capture { uint64_t rsp, rbp, rbx, r12, r13, r14, r15, rip; };
} // namespace sim

extern "C" int sim_capture(sim::Capture *) __attribute__((returns_twice));
extern "C" void sim_resume(sim::Capture *) __attribute__((noreturn));
asm(R"(
.text
.globl sim_capture
.type sim_capture,@function
sim_capture:
    movq (%rsp), %rax
    movq %rax, 56(%rdi)
    leaq 8(%rsp), %rax
    movq %rax, 0(%rdi)
    movq %rbp, 8(%rdi)
    movq %rbx, 16(%rdi)
    movq %r12, 24(%rdi)
    movq %r13, 32(%rdi)
    movq %r14, 40(%rdi)
    movq %r15, 48(%rdi)
    xorl %eax, %eax
    ret
.size sim_capture,.-sim_capture
.globl sim_resume
.type sim_resume,@function
sim_resume:
    movq 0(%rdi), %rsp
    movq 8(%rdi), %rbp
    movq 16(%rdi), %rbx
    movq 24(%rdi), %r12
    movq 32(%rdi), %r13
    movq 40(%rdi), %r14
    movq 48(%rdi), %r15
    movl $1, %eax
    jmpq *56(%rdi)
.size sim_resume,.-sim_resume
)");

extern "C" {
ssize_t sim_read(int, void *, size_t);
ssize_t sim_write(int, const void *, size_t);
int sim_close(int);
void sim_free(void *);
FILE *sim_stdin, *sim_stdout, *sim_stderr;
char **sim_environ;
}

namespace sim {

struct ChildStart { Proc *p; Capture ctx; std::string stack; int parent_tid; Capture back; };
static ChildStart *branch;   // child branch currently executing
struct ProcExit { int status; };

// Behaviour of the simulated executables.
static void program_main(Proc *p)
{
    auto dead = [p] { return p->kill_req; };
    auto checkpoint = [&] {
        pause_point();
        if (p->stopped) wait_until([p] { return !p->stopped || p->kill_req; }, "stopped process");
        if (dead()) throw ProcExit{p->kill_sig & 0x7f};
    };
    auto wr = [&](const std::string &s) {
        size_t off = 0;
        while (off < s.size()) {
            checkpoint();
            ssize_t n = sim_write(1, s.data() + off, s.size() - off);
            if (n < 0) { if (errno == EINTR) continue; throw ProcExit{1 << 8}; }
            off += n;
        }
    };
    try {
        checkpoint();
        switch (p->program) {
            case P_TRUE: throw ProcExit{0};
            case P_EXIT: throw ProcExit{(p->argv.size() > 1 ? atoi(p->argv[1].c_str()) & 255 : 0) << 8};
            case P_KILLSELF: throw ProcExit{p->argv.size() > 1 ? atoi(p->argv[1].c_str()) & 0x7f : SIGKILL};
            case P_SLEEP: {
                const uint64_t dl = now_ns() + (uint64_t)(p->argv.size() > 1 ? atof(p->argv[1].c_str()) * 1e9 : 1e9);
                bool to;
                wait_until([p] { return p->kill_req; }, "sleep(child)", false, dl, &to);
                checkpoint();
                throw ProcExit{(p->argv.size() > 2 ? atoi(p->argv[2].c_str()) & 255 : 0) << 8};
            }
            case P_CAT: {
                char buf[300];
                for (;;) {
                    checkpoint();
                    ssize_t n = sim_read(0, buf, sizeof buf);
                    if (n < 0) { if (errno == EINTR) continue; throw ProcExit{1 << 8}; }
                    if (!n) break;
                    wr(std::string(buf, n));
                }
                throw ProcExit{0};
            }
            case P_SINK: {
                char buf[300]; size_t tot = 0;
                for (;;) {
                    checkpoint();
                    ssize_t n = sim_read(0, buf, sizeof buf);
                    if (n < 0) { if (errno == EINTR) continue; throw ProcExit{255 << 8}; }
                    if (!n) break;
                    tot += n;
                }
                throw ProcExit{(int)(tot % 251) << 8};
            }
            case P_WRITER: {
                for (size_t i = 1; i < p->argv.size(); i++) wr(p->argv[i] + "\n");
                throw ProcExit{0};
            }
            case P_BOTH: {
                for (size_t i = 1; i < p->argv.size(); i++) {
                    wr("o:" + p->argv[i] + "\n");
                    const std::string e = "e:" + p->argv[i] + "\n";
                    for (size_t off = 0; off < e.size();) { checkpoint(); ssize_t n = sim_write(2, e.data() + off, e.size() - off); if (n < 0) { if (errno == EINTR) continue; throw ProcExit{1 << 8}; } off += n; }
                }
                throw ProcExit{0};
            }
            case P_ENV: {
                wr("cwd=" + p->cwd + "\n");
                for (auto &e : p->envp) wr(e + "\n");
                throw ProcExit{0};
            }
            case P_STOP: {
                p->stopped = true; p->stop_reported = false;
                post_signal(SIGCHLD);
                checkpoint();
                throw ProcExit{0};
            }
        }
        throw ProcExit{0};
    } catch (ProcExit &e) {
        on_child_exit(p, e.status);
    }
}

static std::vector<ChildStart *> *starts;
static void *proc_main(void *arg)
{
    Proc *p = (Proc *)arg;
    thrproc[self()] = p;
    if (p->body) { p->body(); close_all(p); p->state = 2; return nullptr; }
    ChildStart *cs = nullptr;
    for (auto *c : *starts) if (c->p == p) cs = c;
    // delay the child arbitrarily
    pause_point();
    if (p->kill_req) { on_child_exit(p, p->kill_sig); return nullptr; }
    // swap the parent's stack for the image taken at fork() and run the child branch on it
    no_preempt_begin();
    char *top = thr_stack_top(cs->parent_tid);
    std::string saved;
    char *low = nullptr;
    if (!thr_done(cs->parent_tid)) { low = (char *)thr_sp(cs->parent_tid); saved.assign(low, top - low); }
    mem_nocheck++;
    branch = cs;
    p->in_branch = true;
    if (!sim_capture(&cs->back)) {
        memcpy((void *)cs->ctx.rsp, cs->stack.data(), cs->stack.size());
        sim_resume(&cs->ctx);
    }
    p->in_branch = false;
    branch = nullptr;
    mem_nocheck--;
    if (low) memcpy(low, saved.data(), saved.size());
    no_preempt_end();
    if (p->execed) program_main(p);
    else on_child_exit(p, p->status);
    return nullptr;
}

int spawn_process(const std::function<void()> &body, const char *name)
{
    Proc *p = new Proc();
    p->pid = next_pid++; p->ppid = 1; p->body = body;
    (*procs)[p->pid] = p;
    no_preempt_begin();
    int tid = spawn_thread(proc_main, p, name);
    mark_harness_thread(tid);
    p->tid = tid;
    thrproc[tid] = p;
    no_preempt_end();
    return tid;
}

void set_env(const std::vector<std::string> &e)
{
    *g_env = e;
    // the strings lie one after another, as in a real process
    std::string all;
    for (auto &x : e) all += x + '\0';
    all += '\0';
    char *block = (char *)malloc(all.size());
    memcpy(block, all.data(), all.size());
    g_envp = (char **)malloc(sizeof(char *) * (e.size() + 1));
    for (size_t i = 0; i < e.size(); i++) { g_envp[i] = block; block += e[i].size() + 1; }
    g_envp[e.size()] = nullptr;
    sim_environ = g_envp;
}

// ---------------------------------------------------------------- stdio over simulated descriptors
struct SFile { FILE *fp; int fd; int owner; int depth; bool std_stream; };
static std::unordered_map<FILE *, SFile *> *files;
struct SDir { std::vector<std::string> names; size_t pos; struct dirent de; };
static int n_dirs;
static std::vector<SDir *> *live_dirs;
static void need_dir(SDir *d, const char *what) { if (std::find(live_dirs->begin(), live_dirs->end(), d) == live_dirs->end()) violation("memory:closed-DIR", "%s() on a DIR which is not open", what); }

int open_files() { int n = 0; for (auto &f : *files) n += !f.second->std_stream; return n; }
int open_dirs() { return n_dirs; }

static ssize_t ck_read(void *c, char *buf, size_t n) { return sim_read(((SFile *)c)->fd, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    size_t todo = n;
    while (todo) {
        ssize_t w = sim_write(((SFile *)c)->fd, buf + (n - todo), todo);
        if (w < 0) break;
        todo -= w;
    }
    return (ssize_t)(n - todo);
}
static int64_t do_seek(OFile *o, int64_t off, int whence)
{
    if (o->kind != K_FILE) { errno = ESPIPE; return -1; }
    int64_t np = whence == SEEK_SET ? off : whence == SEEK_CUR ? o->pos + off : (int64_t)o->node->data.size() + off;
    if (np < 0) { errno = EINVAL; return -1; }
    o->pos = np;
    return np;
}
static int ck_seek(void *c, off64_t *off, int whence)
{
    OFile *o = get(((SFile *)c)->fd);
    if (!o) return -1;
    int64_t r = do_seek(o, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) { return sim_close(((SFile *)c)->fd); }

static FILE *mk_file(int fd, const char *mode, bool std_stream)
{
    SFile *s = new SFile{nullptr, fd, -1, 0, std_stream};
    cookie_io_functions_t fn;
    fn.read = ck_read; fn.write = ck_write; fn.seek = ck_seek; fn.close = ck_close;
    std::string m;
    for (const char *p = mode; *p; p++) if (strchr("rwab+", *p)) m += *p;
    s->fp = fopencookie(s, m.c_str(), fn);
    if (!s->fp) harness_error("fopencookie failed");
    (*files)[s->fp] = s;
    return s->fp;
}
static SFile *sf(FILE *f, const char *what)
{
    auto it = files->find(f);
    if (it == files->end()) violation("memory:closed-FILE", "%s() on a FILE which is not open (use after close)", what);
    return it->second;
}
// a slow disk or network stack
static void slow_io()
{
    if (!is_kos()) return;
    const unsigned v = fault(F_SLOW_IO, 12);
    if (v) { bool to; wait_until([] { return false; }, "slow I/O", false, now_ns() + (256ull << v), &to); }
}
struct FLock {
    FILE *f; SFile *s;
    FLock(FILE *f_, const char *what) : f(f_)
    {
        pause_point();
        s = sf(f, what);
        FILE *ff = f;
        const int t = self();
        if (s->owner != -1 && s->owner != t)
            wait_until([ff] { auto it = files->find(ff); return it == files->end() || it->second->owner == -1; }, "FILE lock");
        s = sf(f, what);
        s->owner = t; s->depth++;
        if (what[0] == 'f' && (what[1] == 'r' || what[1] == 'w' || what[1] == 'f' || what[1] == 'g')) slow_io();
    }
    ~FLock() { auto it = files->find(f); if (it != files->end() && it->second == s && --s->depth == 0) s->owner = -1; }
};

void kernel_init()
{
    root = new Node(); root->type = Node::DIR_; root->mode = 0755;
    procs = new std::map<int, Proc *>();
    socks = new std::vector<Sock *>();
    files = new std::unordered_map<FILE *, SFile *>();
    starts = new std::vector<ChildStart *>();
    live_dirs = new std::vector<SDir *>();
    g_out = new std::string(); g_err = new std::string(); g_in = new std::string(); g_env = new std::vector<std::string>();
    next_pid = 1000; next_port = 40000;
    kos = new Proc(); kos->pid = 100; kos->ppid = 1; kos->cwd = "/work";
    kos->fds.resize(3);
    kos->fds[0].of = new_of(K_IN); kos->fds[1].of = new_of(K_OUT); kos->fds[2].of = new_of(K_ERR);
    fs_mkdir("/work"); fs_mkdir("/tmp");
    sim_stdin = mk_file(0, "r", true); sim_stdout = mk_file(1, "w", true); sim_stderr = mk_file(2, "w", true);
    setvbuf(sim_stderr, nullptr, _IONBF, 0);
    static const struct { const char *n; int p; } bins[] = {
        {"true", P_TRUE}, {"exit", P_EXIT}, {"cat", P_CAT}, {"sleep", P_SLEEP}, {"killself", P_KILLSELF},
        {"writer", P_WRITER}, {"sink", P_SINK}, {"env", P_ENV}, {"stop", P_STOP}, {"noexec", P_NOEXEC}, {"both", P_BOTH} };
    for (auto &b : bins) { Node *n = fs_mkfile(std::string("/bin/") + b.n, "#!"); n->program = b.p; n->mode = b.p == P_NOEXEC ? 0644 : 0755; }
    set_env({"PATH=/bin:/usr/bin", "HOME=/home/sim", "LANG=C"});
}

} // namespace sim

namespace sim {
struct Lib { std::string set; };
static std::vector<Lib *> live_libs;
static std::string dl_err;
std::map<std::string, void *> native_symbols;
int open_libs() { return (int)live_libs.size(); }
}
using namespace sim;

static int fail(int e) { errno = e; return -1; }

extern "C" {

// ---------------------------------------------------------------- files
int sim_open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    (void)mode;
    pause_point();
    if (unsigned v = kfault(F_OPEN_FAIL, 3)) return fail(v == 1 ? EMFILE : v == 2 ? EACCES : EINTR);
    Node *parent; std::string leaf;
    Node *n = walk(path, true, nullptr, 0, &parent, &leaf);
    if (!n) {
        if (errno != ENOENT || !(flags & O_CREAT) || !parent) return -1;
        if (kfault(F_ENOSPC)) return fail(ENOSPC);
        n = new_node(Node::FILE_);
        parent->kids[leaf] = n;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
        if (n->type == Node::DIR_ && (flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR);
        if ((flags & O_TRUNC) && n->type == Node::FILE_) n->data.clear();
    }
    OFile *o = new_of(K_FILE);
    o->node = n; o->flags = flags; n->opens++;
    return alloc_fd(o, flags & O_CLOEXEC);
}
int sim_close(int fd)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) { if (is_kos()) violation("fd:bad-close", "close() of descriptor %d which is not open", fd); return -1; }
    me()->fds[fd].of = nullptr;
    drop_of(o);
    return 0;
}

static ssize_t sock_recv(OFile *o, void *buf, size_t n, int flags, sockaddr *sa, socklen_t *sl);
static ssize_t sock_send(OFile *o, const void *buf, size_t n, int flags, const Addr *to);

ssize_t sim_read(int fd, void *buf, size_t n)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    if (is_kos() && !mem_nocheck) mem_check(buf, n, true);
    o->refs++;
    ssize_t ret = -1;
    switch (o->kind) {
        case K_IN:
            if (!is_kos()) { ret = 0; break; }
            if (kfault(F_EINTR)) { errno = EINTR; break; }
            ret = (ssize_t)std::min(n, g_in->size() - g_in_pos);
            if (ret > 1 && kfault(F_SHORT_IO)) ret = 1;
            memcpy(buf, g_in->data() + g_in_pos, ret); g_in_pos += ret;
            break;
        case K_FILE: {
            if (o->node->type == Node::DIR_) { errno = EISDIR; break; }
            if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; break; }
            if (kfault(F_IO_ERROR)) { errno = EIO; break; }
            const int64_t sz = (int64_t)o->node->data.size();
            int64_t av = o->pos < sz ? sz - o->pos : 0;
            if (av > (int64_t)n) av = n;
            if (av > 1 && kfault(F_SHORT_IO)) av = av / 2;
            memcpy(buf, o->node->data.data() + o->pos, av);
            o->pos += av;
            ret = av;
            break;
        }
        case K_PIPE_R: {
            Pipe *p = o->pipe;
            if (!n) { ret = 0; break; }
            if (kfault(F_EINTR)) { errno = EINTR; break; }
            if (!wait_until([p] { return !p->buf.empty() || !p->writers; }, "pipe data", true)) { errno = EINTR; break; }
            size_t k = std::min(n, p->buf.size());
            if (n > 8 && k > 1 && kfault(F_SHORT_IO)) k = 1 + k / 3;
            memcpy(buf, p->buf.data(), k);
            p->buf.erase(0, k);
            ret = k;
            break;
        }
        case K_SOCK: ret = sock_recv(o, buf, n, 0, nullptr, nullptr); break;
        default: errno = EBADF;
    }
    const int e = errno;
    if (ret > 0 && is_kos() && !mem_nocheck) mem_check(buf, ret, true);
    drop_of(o);
    errno = e;
    return ret;
}
ssize_t sim_write(int fd, const void *buf, size_t n)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    if (is_kos() && !mem_nocheck) mem_check(buf, n, false);
    o->refs++;
    ssize_t ret = -1;
    switch (o->kind) {
        case K_OUT: case K_ERR:
            if (kfault(F_IO_ERROR)) { errno = EIO; break; }
            (o->kind == K_OUT ? *g_out : *g_err).append((const char *)buf, n); ret = n; break;
        case K_FILE: {
            if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; break; }
            if (!n) { ret = 0; break; }
            if (kfault(F_IO_ERROR)) { errno = EIO; break; }
            if (kfault(F_ENOSPC)) { errno = ENOSPC; break; }
            if (o->flags & O_APPEND) o->pos = o->node->data.size();
            size_t k = n;
            if (k > 1 && kfault(F_SHORT_IO)) k = k / 2;
            if (disk_capacity != ~0ull) {
                const uint64_t used = fs_used();
                const uint64_t sz = o->node->data.size();
                uint64_t room = used < disk_capacity ? disk_capacity - used : 0;
                const uint64_t overlap = (uint64_t)o->pos < sz ? sz - o->pos : 0;
                if (k > overlap + room) k = overlap + room;
                if (!k) { errno = ENOSPC; break; }
            }
            if ((size_t)o->pos > o->node->data.size()) o->node->data.resize(o->pos, '\0');
            o->node->data.replace(o->pos, std::min(k, o->node->data.size() - (size_t)o->pos), (const char *)buf, k);
            o->pos += k;
            o->node->mtime = now_ns();
            ret = k;
            break;
        }
        case K_PIPE_W: {
            Pipe *p = o->pipe;
            if (!n) { ret = 0; break; }
            if (kfault(F_EINTR)) { errno = EINTR; break; }
            size_t done = 0;
            while (done < n) {
                // what a forked child reports before it executes the program always fits
                if (!branch && !wait_until([p] { return p->buf.size() < pipe_capacity || !p->readers; }, "pipe room", true)) { break; }
                if (!p->readers) { if (!done) errno = EPIPE; break; }
                size_t k = branch ? n - done : std::min(n - done, (size_t)pipe_capacity - p->buf.size());
                p->buf.append((const char *)buf + done, k);
                done += k;
                if (!branch && done < n && kfault(F_SHORT_IO)) break;
            }
            if (done) ret = done;
            else if (p->readers) errno = EINTR;
            break;
        }
        case K_SOCK: ret = sock_send(o, buf, n, 0, nullptr); break;
        default: errno = EBADF;
    }
    const int e = errno;
    drop_of(o);
    errno = e;
    return ret;
}
int sim_ftruncate(int fd, off_t len)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    if (o->kind != K_FILE || (o->flags & O_ACCMODE) == O_RDONLY) return fail(EINVAL);
    if (len < 0) return fail(EINVAL);
    if (kfault(F_IO_ERROR)) return fail(EIO);
    if ((size_t)len > o->node->data.size()) {
        if (kfault(F_ENOSPC)) return fail(ENOSPC);
        if (len > (1 << 26)) return fail(EFBIG);
    }
    o->node->data.resize(len, '\0');
    return 0;
}
off_t sim_lseek(int fd, off_t off, int whence) { pause_point(); OFile *o = get(fd); return o ? do_seek(o, off, whence) : -1; }

static void fill_stat(Node *n, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = (n->type == Node::DIR_ ? S_IFDIR : n->type == Node::LINK_ ? S_IFLNK : S_IFREG) | n->mode;
    st->st_size = n->type == Node::LINK_ ? n->target.size() : n->data.size();
    st->st_ino = n->ino; st->st_nlink = n->nlink; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = n->mtime / 1000000000ull; st->st_mtim.tv_nsec = n->mtime % 1000000000ull;
    st->st_atim = st->st_ctim = st->st_mtim;
}
int sim_fstat(int fd, struct stat *st)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    if (kfault(F_SYSCALL_FAIL)) return fail(EOVERFLOW);
    if (o->kind == K_FILE) fill_stat(o->node, st);
    else { memset(st, 0, sizeof *st); st->st_mode = o->kind == K_SOCK ? S_IFSOCK : o->kind == K_PIPE_R || o->kind == K_PIPE_W ? S_IFIFO : S_IFCHR; }
    return 0;
}
int sim_stat(const char *p, struct stat *st) { pause_point(); if (kfault(F_SYSCALL_FAIL)) return fail(EIO); Node *n = fs_lookup(p); if (!n) return -1; fill_stat(n, st); return 0; }
int sim_lstat(const char *p, struct stat *st) { pause_point(); if (kfault(F_SYSCALL_FAIL)) return fail(EACCES); Node *n = fs_lookup(p, false); if (!n) return -1; fill_stat(n, st); return 0; }
int sim_access(const char *p, int) { pause_point(); return fs_lookup(p) ? 0 : -1; }
int sim_mkdir(const char *p, mode_t)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) return fail(ENOSPC);
    Node *par; std::string leaf;
    Node *n = walk(p, false, nullptr, 0, &par, &leaf);
    if (n) return fail(EEXIST);
    if (errno != ENOENT || !par) return -1;
    par->kids[leaf] = new_node(Node::DIR_);
    return 0;
}
int sim_rmdir(const char *p)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) return fail(EBUSY);
    Node *par; std::string leaf;
    Node *n = walk(p, false, nullptr, 0, &par, &leaf);
    if (!n) return -1;
    if (n->type != Node::DIR_) return fail(ENOTDIR);
    if (!n->kids.empty()) return fail(ENOTEMPTY);
    if (!par) return fail(EBUSY);
    par->kids.erase(leaf);
    return 0;
}
int sim_unlink(const char *p)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) return fail(EACCES);
    Node *par; std::string leaf;
    Node *n = walk(p, false, nullptr, 0, &par, &leaf);
    if (!n) return -1;
    if (n->type == Node::DIR_) return fail(EISDIR);
    par->kids.erase(leaf);
    n->nlink--;
    return 0;
}
int sim_rename(const char *a, const char *b)
{
    pause_point();
    Node *pa, *pb; std::string la, lb;
    Node *n = walk(a, false, nullptr, 0, &pa, &la);
    if (!n) return -1;
    walk(b, false, nullptr, 0, &pb, &lb);
    if (!pb) return fail(ENOENT);
    pa->kids.erase(la);
    pb->kids[lb] = n;
    return 0;
}
int sim_remove(const char *p) { Node *n = fs_lookup(p, false); return n && n->type == Node::DIR_ ? sim_rmdir(p) : sim_unlink(p); }
ssize_t sim_readlink(const char *p, char *buf, size_t sz)
{
    pause_point();
    std::string t;
    if (!strcmp(p, "/proc/self/exe")) t = "/bin/kos";
    else { Node *n = fs_lookup(p, false); if (!n) return -1; if (n->type != Node::LINK_) return fail(EINVAL); t = n->target; }
    size_t k = std::min(sz, t.size());
    mem_check(buf, k, true);
    memcpy(buf, t.data(), k);
    return k;
}
char *sim_realpath(const char *p, char *out)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) { errno = EACCES; return nullptr; }
    std::string c;
    if (!walk(p, true, &c, 0, nullptr, nullptr)) return nullptr;
    if (!out) { out = (char *)sim_alloc(c.size() + 1, 16, true); if (!out) return nullptr; }
    memcpy(out, c.c_str(), c.size() + 1);
    return out;
}
char *sim_getcwd(char *buf, size_t sz)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) { errno = ENOENT; return nullptr; }
    const std::string &c = me()->cwd;
    if (!buf) { buf = (char *)sim_alloc(sz ? sz : c.size() + 1, 16, true); if (!buf) return nullptr; }
    else if (sz < c.size() + 1) { errno = ERANGE; return nullptr; }
    memcpy(buf, c.c_str(), c.size() + 1);
    return buf;
}
int sim_chdir(const char *p)
{
    pause_point();
    std::string c;
    Node *n = walk(p, true, &c, 0, nullptr, nullptr);
    if (!n) return -1;
    if (n->type != Node::DIR_) return fail(ENOTDIR);
    me()->cwd = c;
    return 0;
}
DIR *sim_opendir(const char *p)
{
    pause_point();
    if (unsigned v = kfault(F_OPEN_FAIL, 2)) { errno = v == 1 ? EMFILE : EACCES; return nullptr; }
    Node *n = fs_lookup(p);
    if (!n) return nullptr;
    if (n->type != Node::DIR_) { errno = ENOTDIR; return nullptr; }
    SDir *d = new SDir();
    d->names = {".", ".."};
    for (auto &k : n->kids) d->names.push_back(k.first);
    d->pos = 0;
    n_dirs++;
    live_dirs->push_back(d);
    return (DIR *)d;
}
struct dirent *sim_readdir(DIR *dd)
{
    pause_point();
    SDir *d = (SDir *)dd;
    need_dir(d, "readdir");
    if (kfault(F_SYSCALL_FAIL)) { errno = EIO; return nullptr; }
    if (d->pos >= d->names.size()) return nullptr;
    memset(&d->de, 0, sizeof d->de);
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->pos++].c_str());
    return &d->de;
}
int sim_closedir(DIR *dd) { pause_point(); need_dir((SDir *)dd, "closedir"); live_dirs->erase(std::find(live_dirs->begin(), live_dirs->end(), (SDir *)dd)); delete (SDir *)dd; n_dirs--; return 0; }
void *sim_mmap(void *, size_t len, int, int, int fd, off_t off)
{
    pause_point();
    if (kfault(F_MMAP_FAIL)) { errno = ENOMEM; return MAP_FAILED; }
    OFile *o = fd >= 0 ? get(fd) : nullptr;
    if (fd >= 0 && !o) return MAP_FAILED;
    char *p = (char *)sim_alloc(len, 4096, false);
    if (!p) { errno = ENOMEM; return MAP_FAILED; }
    memset(p, 0, len);
    if (o && o->kind == K_FILE && off < (off_t)o->node->data.size())
        memcpy(p, o->node->data.data() + off, std::min(len, o->node->data.size() - (size_t)off));
    return p;
}
// shared libraries: files which begin with "native:"; what follows selects the set of symbols
void *sim_dlopen(const char *path, int)
{
    pause_point();
    if (kfault(F_OPEN_FAIL)) { dl_err = "cannot open shared object file"; return nullptr; }
    Node *n = fs_lookup(path);
    if (!n || n->type != Node::FILE_) { dl_err = std::string(path) + ": cannot open shared object file: No such file or directory"; return nullptr; }
    if (n->data.compare(0, 7, "native:")) { dl_err = std::string(path) + ": invalid ELF header"; return nullptr; }
    Lib *l = new Lib{n->data.substr(7)};
    live_libs.push_back(l);
    return l;
}
static bool lib_ok(void *h)
{
    for (Lib *l : live_libs) if (l == h) return true;
    violation("lib:closed", "a shared library is used after it was closed");
    return false;
}
void *sim_dlsym(void *h, const char *name)
{
    pause_point();
    if (!lib_ok(h)) return nullptr;
    auto it = native_symbols.find(((Lib *)h)->set + "." + name);
    if (it == native_symbols.end()) { dl_err = std::string("undefined symbol: ") + name; return nullptr; }
    return it->second;
}
int sim_dlclose(void *h)
{
    pause_point();
    if (!lib_ok(h)) return -1;
    live_libs.erase(std::find(live_libs.begin(), live_libs.end(), (Lib *)h));
    delete (Lib *)h;
    return 0;
}
char *sim_dlerror(void)
{
    if (dl_err.empty()) return nullptr;
    static std::string last;
    last.swap(dl_err); dl_err.clear();
    return &last[0];
}
int sim_munmap(void *p, size_t) { pause_point(); sim_dealloc(p); return 0; }
int sim_flock(int fd, int op)
{
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    if (o->kind != K_FILE) return 0;
    Node *n = o->node; const int id = o->id;
    if (op & LOCK_UN) { if (n->lock_owner == id) n->lock_owner = 0; return 0; }
    if (unsigned v = kfault(F_FLOCK_FAIL, 2)) return fail(v == 1 ? ENOLCK : EINTR);
    if (n->lock_owner && n->lock_owner != id) {
        if (op & LOCK_NB) return fail(EWOULDBLOCK);
        o->refs++;
        bool ok = wait_until([n] { return !n->lock_owner; }, "flock", true);
        drop_of(o);
        if (!ok) return fail(EINTR);
    }
    n->lock_owner = id;
    return 0;
}
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    pause_point();
    OFile *o = get(fd);
    if (!o) return -1;
    switch (cmd) {
        case F_SETFD: me()->fds[fd].cloexec = (int)arg & FD_CLOEXEC; return 0;
        case F_GETFD: return me()->fds[fd].cloexec ? FD_CLOEXEC : 0;
        case F_GETFL: return o->flags;
        case F_SETFL: o->flags = (int)arg; return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: {
            if (kfault(F_SYSCALL_FAIL)) return fail(EMFILE);
            Proc *p = me();
            int n = (int)arg;
            while (n < (int)p->fds.size() && p->fds[n].of) n++;
            if ((int)p->fds.size() <= n) p->fds.resize(n + 1);
            o->refs++;
            p->fds[n] = Fd{o, cmd == F_DUPFD_CLOEXEC};
            return n;
        }
    }
    return fail(EINVAL);
}
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_tcgetattr(int, void *) { errno = ENOTTY; return -1; }
int sim_tcsetattr(int, int, const void *) { errno = ENOTTY; return -1; }
int sim_dup2(int a, int b)
{
    pause_point();
    OFile *o = get(a);
    if (!o) return -1;
    if (kfault(F_SYSCALL_FAIL)) return fail(EMFILE);
    if (a == b) return b;
    Proc *p = me();
    if ((int)p->fds.size() <= b) p->fds.resize(b + 1);
    if (p->fds[b].of) drop_of(p->fds[b].of);
    o->refs++;
    p->fds[b] = Fd{o, false};
    return b;
}
int sim_dup(int a) { pause_point(); OFile *o = get(a); if (!o) return -1; o->refs++; return alloc_fd(o, false); }
int sim_pipe(int *fds)
{
    pause_point();
    if (kfault(F_PIPE_FAIL)) return fail(EMFILE);
    Pipe *p = new Pipe();
    p->readers = p->writers = 1;
    OFile *r = new_of(K_PIPE_R), *w = new_of(K_PIPE_W);
    r->pipe = w->pipe = p;
    fds[0] = alloc_fd(r, false);
    fds[1] = alloc_fd(w, false);
    return 0;
}
int sim_pipe2(int *fds, int flags)
{
    const int r = sim_pipe(fds);
    if (!r && (flags & O_CLOEXEC)) me()->fds[fds[0]].cloexec = me()->fds[fds[1]].cloexec = true;
    return r;
}
int sim_dup3(int a, int b, int flags)
{
    if (a == b) return fail(EINVAL);
    const int r = sim_dup2(a, b);
    if (r >= 0 && (flags & O_CLOEXEC)) me()->fds[b].cloexec = true;
    return r;
}

// ---------------------------------------------------------------- stdio
static int mode_flags(const char *m)
{
    int f = *m == 'r' ? O_RDONLY : *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
    if (strchr(m, 'e')) f |= O_CLOEXEC;
    return f;
}
FILE *sim_fopen(const char *path, const char *mode)
{
    pause_point();
    if (!strchr("rwa", *mode)) { errno = EINVAL; return nullptr; }
    int fd = sim_open(path, mode_flags(mode), 0666);
    if (fd < 0) return nullptr;
    if (fault(F_MALLOC)) { sim_close(fd); errno = ENOMEM; return nullptr; }
    if (*mode == 'a' && !strchr(mode, '+')) { OFile *o = get(fd); if (o->kind == K_FILE) o->pos = (int64_t)o->node->data.size(); }    // as glibc
    return mk_file(fd, mode, false);
}
FILE *sim_fdopen(int fd, const char *mode)
{
    pause_point();
    if (!get(fd)) return nullptr;
    if (fault(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    return mk_file(fd, mode, false);
}
int sim_fclose(FILE *f)
{
    FLock l(f, "fclose");
    SFile *s = l.s;
    if (s->std_stream) { return fflush(f); }
    int r = fclose(f);           // flushes through the simulated descriptor, then closes it
    const int e = errno;
    files->erase(f);
    errno = e;
    return r;
}
static void say(FILE *f, const char *p, size_t n)
{
    if (!group_said || (f != sim_stdout && f != sim_stderr)) return;
    auto &e = (*group_said)[thread_group()];
    (f == sim_stdout ? e.first : e.second).append(p, n);
}
size_t sim_fread(void *p, size_t sz, size_t n, FILE *f)
{
    FLock l(f, "fread");
    if (sz && n) mem_check(p, sz * n, true);
    size_t r = fread(p, sz, n, f);
    const int e = errno;
    if (r) mem_check(p, sz * r, true);
    errno = e;
    return r;
}
size_t sim_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    FLock l(f, "fwrite");
    if (sz && n) mem_check(p, sz * n, false);
    size_t r = fwrite(p, sz, n, f);
    say(f, (const char *)p, sz * r);
    const int e = errno;
    if (sz && n) mem_check(p, sz * n, false);
    errno = e;
    return r;
}
extern "C++" { namespace sim { void flush_std() { fflush(sim_stdout); fflush(sim_stderr); } } }
int sim_fflush(FILE *f)
{
    if (!f) { pause_point(); return 0; }
    FLock l(f, "fflush");
    return fflush(f);
}
char *sim_fgets(char *b, int n, FILE *f)
{
    FLock l(f, "fgets");
    mem_check(b, n, true);
    char *r = fgets(b, n, f);
    const int e = errno;
    mem_check(b, n, true);
    errno = e;
    return r;
}
int sim_getc(FILE *f) { FLock l(f, "getc"); return getc(f); }
int sim_fgetc(FILE *f) { FLock l(f, "fgetc"); return getc(f); }
int sim_getchar() { return sim_getc(sim_stdin); }
int sim_ungetc(int c, FILE *f) { FLock l(f, "ungetc"); return ungetc(c, f); }
int sim_fputc(int c, FILE *f) { FLock l(f, "fputc"); const char ch = (char)c; say(f, &ch, 1); return fputc(c, f); }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs(const char *s, FILE *f) { FLock l(f, "fputs"); say(f, s, strlen(s)); return fputs(s, f); }
int sim_puts(const char *s) { FLock l(sim_stdout, "puts"); say(sim_stdout, s, strlen(s)); say(sim_stdout, "\n", 1); fputs(s, sim_stdout); return fputc('\n', sim_stdout); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap)
{
    FLock l(f, "fprintf");
    if (group_said) {
        char b[4096];
        va_list a2;
        va_copy(a2, ap);
        const int k = vsnprintf(b, sizeof b, fmt, a2);
        va_end(a2);
        say(f, b, k > 0 ? std::min((size_t)k, sizeof b - 1) : 0);
    }
    return vfprintf(f, fmt, ap);
}
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_fseek(FILE *f, long off, int w) { FLock l(f, "fseek"); return fseek(f, off, w); }
int sim_fseeko(FILE *f, off_t off, int w) { FLock l(f, "fseek"); return fseeko(f, off, w); }
long sim_ftell(FILE *f) { FLock l(f, "ftell"); return ftell(f); }
off_t sim_ftello(FILE *f) { FLock l(f, "ftell"); return ftello(f); }
void sim_rewind(FILE *f) { FLock l(f, "rewind"); rewind(f); }
int sim_feof(FILE *f) { FLock l(f, "feof"); return feof(f); }
int sim_ferror(FILE *f) { FLock l(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE *f) { FLock l(f, "clearerr"); clearerr(f); }
int sim_fileno(FILE *f) { return sf(f, "fileno")->fd; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { FLock l(f, "setvbuf"); return setvbuf(f, b, m, n); }

// ---------------------------------------------------------------- time, environment
int sim_clock_gettime(clockid_t id, struct timespec *ts)
{
    pause_point();
    uint64_t t = now_ns();
    if (id == CLOCK_REALTIME) t += wall_offset_ns;
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) { uint64_t t = now_ns() + wall_offset_ns; tv->tv_sec = t / 1000000000ull; tv->tv_usec = t % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t *o) { time_t t = (now_ns() + wall_offset_ns) / 1000000000ull; if (o) *o = t; return t; }
int sim_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    pause_point();
    const uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec, t0 = now_ns();
    bool intr = false;
    sleep_ns(ns, &intr);
    if (intr) { uint64_t d = now_ns() - t0; uint64_t r = d < ns ? ns - d : 0; if (rem) { rem->tv_sec = r / 1000000000ull; rem->tv_nsec = r % 1000000000ull; } return fail(EINTR); }
    return 0;
}
int sim_usleep(unsigned us) { struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000}; return sim_nanosleep(&ts, nullptr); }
char *sim_getenv(const char *n)
{
    const size_t l = strlen(n);
    for (char **e = sim_environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return nullptr;
}
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN ? 4 : -1; }
int sim_getloadavg(double *a, int n) { for (int i = 0; i < n; i++) a[i] = 0.5; return n; }
pid_t sim_getpid() { return me()->pid; }

// ---------------------------------------------------------------- signals and processes
int sim_sigaction(int sig, const struct sigaction *act, struct sigaction *old)
{
    pause_point();
    if (act && kfault(F_SYSCALL_FAIL)) return fail(EINVAL);
    if (old) { memset(old, 0, sizeof *old); old->sa_handler = get_sigact(sig); }
    if (act) set_sigact(sig, act->sa_handler == SIG_IGN || act->sa_handler == SIG_DFL ? nullptr : act->sa_handler, act->sa_flags);
    return 0;
}
int sim_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int sim_sigfillset(sigset_t *s) { memset(s, 0xFF, sizeof *s); return 0; }
int sim_sigaddset(sigset_t *s, int sig) { ((uint64_t *)s)[0] |= 1ull << (sig - 1); return 0; }
int sim_sigdelset(sigset_t *s, int sig) { ((uint64_t *)s)[0] &= ~(1ull << (sig - 1)); return 0; }
int sim_sigismember(const sigset_t *s, int sig) { return (int)(((const uint64_t *)s)[0] >> (sig - 1) & 1); }
int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
    pause_point();
    const uint64_t in = set ? ((const uint64_t *)set)[0] << 1 : 0;
    const uint64_t was = change_sigmask(how, set ? &in : nullptr);
    if (old) { memset(old, 0, sizeof *old); ((uint64_t *)old)[0] = was >> 1; }
    return 0;
}
int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old) { return sim_pthread_sigmask(how, set, old); }
int sim_kill(pid_t pid, int sig)
{
    pause_point();
    if (pid == kos->pid) {
        if (!get_sigact(sig)) harness_error("the simulated program killed itself with signal %d", sig);
        post_signal(sig);
        return 0;
    }
    auto it = procs->find(pid);
    if (it == procs->end() || it->second->state == 2) return fail(ESRCH);
    kill_child(pid, sig);
    return 0;
}
int sim_raise(int sig) { return sim_kill(kos->pid, sig); }

pid_t sim_fork()
{
    pause_point();
    if (kfault(F_FORK_FAIL)) return fail(EAGAIN);
    n_forks++;
    Proc *parent = me();
    Proc *p = new Proc();
    p->pid = next_pid++;
    if (pid_reuse) for (auto &kv : *procs) if (kv.second->state == 2 && kv.first >= 1000 && !kv.second->body) { p->pid = kv.first; next_pid--; break; }
    p->ppid = parent->pid;
    p->cwd = parent->cwd;
    p->fds = parent->fds;
    for (auto &f : p->fds) if (f.of) f.of->refs++;
    (*procs)[p->pid] = p;
    ChildStart *cs = new ChildStart();
    cs->p = p;
    cs->parent_tid = self();
    starts->push_back(cs);
    if (sim_capture(&cs->ctx)) return 0;          // child branch
    cs->stack.assign((char *)cs->ctx.rsp, thr_stack_top(cs->parent_tid) - (char *)cs->ctx.rsp);
    no_preempt_begin();
    int tid = spawn_thread(proc_main, p, "child");
    mark_harness_thread(tid);
    p->tid = tid;
    thrproc[tid] = p;
    no_preempt_end();
    trace("fork -> %d", p->pid);
    pause_point();
    return p->pid;
}
pid_t sim_vfork() { return sim_fork(); }
int sim_execve(const char *path, char *const argv[], char *const envp[])
{
    Proc *p = me();
    if (p == kos || !branch) harness_error("execve outside of a child process");
    // environment faults are decided here so that the parent sees a real exec failure
    unsigned v = fault(F_EXEC_FAIL, 2);
    if (v) return fail(v == 1 ? ENOMEM : EIO);
    Node *n = fs_lookup(path);
    if (!n) return -1;
    if (n->type != Node::FILE_ || !(n->mode & 0111)) return fail(EACCES);
    if (!n->program) return fail(ENOEXEC);
    for (char *const *a = argv; a && *a; a++) p->argv.push_back(*a);
    for (char *const *a = envp; a && *a; a++) p->envp.push_back(*a);
    for (auto &f : p->fds) if (f.of && f.cloexec) { OFile *o = f.of; f.of = nullptr; drop_of(o); }
    p->program = n->program;
    p->execed = true;
    n_execs++;
    sim_resume(&branch->back);
}
static void child_exit(int st, bool flush)
{
    Proc *p = me();
    if (p == kos || !branch) harness_error("exit(%d) called by the program under test", st);
    if (flush) {
        // exit() in a forked child flushes the stdio buffers inherited from the parent
        std::map<int, FILE *> byfd;
        for (auto &kv : *files) byfd[kv.second->fd] = kv.first;
        for (auto &kv : byfd) {
            FILE *fp = kv.second;
            const size_t pend = __fpending(fp);
            if (pend && kv.first < (int)p->fds.size() && p->fds[kv.first].of) sim_write(kv.first, fp->_IO_write_base, pend);
        }
    }
    p->status = (st & 255) << 8;
    sim_resume(&branch->back);
}
void sim_exit(int st) { child_exit(st, true); }
void sim__exit(int st) { child_exit(st, false); }
pid_t sim_waitpid(pid_t pid, int *status, int flags)
{
    pause_point();
    const int ppid = me()->pid;
    auto find = [pid, ppid, flags](bool *any) -> Proc * {
        *any = false;
        for (auto &kv : *procs) {
            Proc *p = kv.second;
            if (p->ppid != ppid || p->state == 2) continue;
            if (pid > 0 && p->pid != pid) continue;
            *any = true;
            if (p->state == 1) return p;
            if ((flags & WUNTRACED) && p->stopped && !p->stop_reported) return p;
        }
        return nullptr;
    };
    bool any;
    Proc *p = find(&any);
    if (!any) return fail(ECHILD);
    if (!p && (flags & WNOHANG)) return 0;
    if (kfault(F_EINTR)) return fail(EINTR);
    if (!p) {
        bool ok = wait_until([&] { bool a; return find(&a) || !a; }, "waitpid", true);
        p = find(&any);
        if (!p) return fail(ok ? ECHILD : EINTR);
    }
    if (p->state == 1) { p->state = 2; if (status) *status = p->status; }
    else { p->stop_reported = true; if (status) *status = 0x7f | (SIGSTOP << 8); }
    trace("waitpid -> %d", p->pid);
    return p->pid;
}

// ---------------------------------------------------------------- sockets
static bool to_addr(const sockaddr *sa, socklen_t l, Addr *a)
{
    char b[64];
    if (sa->sa_family == AF_INET && l >= sizeof(sockaddr_in)) {
        const sockaddr_in *s = (const sockaddr_in *)sa;
        a->family = AF_INET; a->ip = inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); a->port = ntohs(s->sin_port);
        return true;
    }
    if (sa->sa_family == AF_INET6 && l >= sizeof(sockaddr_in6)) {
        const sockaddr_in6 *s = (const sockaddr_in6 *)sa;
        a->family = AF_INET6; a->ip = inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); a->port = ntohs(s->sin6_port);
        return true;
    }
    return false;
}
static void from_addr(const Addr &a, sockaddr *sa, socklen_t *l)
{
    if (!sa || !l) return;
    char tmp[sizeof(sockaddr_in6)]; memset(tmp, 0, sizeof tmp);
    socklen_t need;
    if (a.family == AF_INET6) {
        sockaddr_in6 *s = (sockaddr_in6 *)tmp; s->sin6_family = AF_INET6; s->sin6_port = htons(a.port);
        inet_pton(AF_INET6, a.ip.c_str(), &s->sin6_addr); need = sizeof *s;
    } else {
        sockaddr_in *s = (sockaddr_in *)tmp; s->sin_family = AF_INET; s->sin_port = htons(a.port);
        inet_pton(AF_INET, a.ip.c_str(), &s->sin_addr); need = sizeof *s;
    }
    memcpy(sa, tmp, std::min(*l, need));
    *l = need;
}
static bool any_ip(const Addr &a) { return a.ip == "0.0.0.0" || a.ip == "::"; }

int sim_socket(int domain, int type, int)
{
    pause_point();
    if (kfault(F_SYSCALL_FAIL)) return fail(EMFILE);
    if (domain != AF_INET && domain != AF_INET6) return fail(EAFNOSUPPORT);
    Sock *s = new Sock();
    s->domain = domain; s->type = type & 0xff;
    s->cap = pipe_capacity;
    socks->push_back(s);
    OFile *o = new_of(K_SOCK);
    o->sock = s; o->flags = O_RDWR;
    return alloc_fd(o, type & SOCK_CLOEXEC);
}
static void sock_close_impl(Sock *s)
{
    s->closed = true;
    for (Sock *q : s->accept_q) if (q->peer) { q->peer->reset = true; q->peer->dead_peer = true; }
    s->accept_q.clear();
    if (s->peer && !s->peer->closed) {
        Sock *p = s->peer;
        if (!s->rx.empty()) { p->reset = true; n_resets++; }
        p->dead_peer = true;
        if (!s->wr_shut) {
            // FIN arrives after the data in flight
            const uint64_t at = std::max(p->last_arrival, now_ns());
            if (at <= now_ns() && !p->inflight) p->fin_seen = true;
            else set_event(at + 1, [p] { p->fin_seen = true; });
        }
    }
    for (size_t i = 0; i < socks->size(); i++) if ((*socks)[i] == s) { socks->erase(socks->begin() + i); break; }
}
} // extern C
namespace sim { static void sock_close(Sock *s) { sock_close_impl(s); } }
extern "C" {
static OFile *gets_(int fd) { OFile *o = get(fd); if (!o) return nullptr; if (o->kind != K_SOCK) { errno = ENOTSOCK; return nullptr; } return o; }
int sim_bind(int fd, const sockaddr *sa, socklen_t l)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    Addr a;
    if (!to_addr(sa, l, &a)) return fail(EINVAL);
    if (kfault(F_SYSCALL_FAIL)) return fail(EADDRINUSE);
    if (o->sock->bound) return fail(EINVAL);
    if (!a.port) a.port = next_port++;
    for (Sock *s : *socks) if (s->bound && s->type == o->sock->type && s->local.port == a.port && (s->local.ip == a.ip || any_ip(s->local) || any_ip(a))) return fail(EADDRINUSE);
    o->sock->local = a; o->sock->bound = true;
    return 0;
}
int sim_listen(int fd, int backlog)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    if (o->sock->type != SOCK_STREAM) return fail(EOPNOTSUPP);
    if (kfault(F_SYSCALL_FAIL)) return fail(EADDRINUSE);
    if (!o->sock->bound) { o->sock->local.family = o->sock->domain; o->sock->local.ip = o->sock->domain == AF_INET ? "0.0.0.0" : "::"; o->sock->local.port = next_port++; o->sock->bound = true; }
    o->sock->listening = true; o->sock->backlog = backlog;
    return 0;
}
static Sock *find_listener(const Addr &a, int type)
{
    for (Sock *s : *socks)
        if (s->bound && !s->closed && s->type == type && (type == SOCK_DGRAM || s->listening) && s->local.port == a.port && (any_ip(s->local) || s->local.ip == a.ip)) return s;
    return nullptr;
}
static void ensure_local(Sock *s)
{
    if (!s->bound) { s->local.family = s->domain; s->local.ip = s->domain == AF_INET ? "127.0.0.1" : "::1"; s->local.port = next_port++; s->bound = true; }
}
int sim_connect(int fd, const sockaddr *sa, socklen_t l)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    Addr a;
    if (!to_addr(sa, l, &a)) return fail(EINVAL);
    Sock *s = o->sock;
    if (s->type == SOCK_DGRAM) { s->remote = a; s->connected = true; ensure_local(s); return 0; }
    if (s->connected) return fail(EISCONN);
    if (unsigned v = kfault(F_NET_REFUSE, 2)) return fail(v == 1 ? ECONNREFUSED : EINTR);
    Sock *ls = find_listener(a, SOCK_STREAM);
    if (!ls) return fail(ECONNREFUSED);
    o->refs++;
    bool ok = wait_until([ls] { return ls->closed || (int)ls->accept_q.size() < ls->backlog; }, "connect", true);
    if (!ok) { drop_of(o); return fail(EINTR); }
    if (ls->closed || s->closed) { drop_of(o); return fail(ECONNREFUSED); }
    ensure_local(s);
    Sock *q = new Sock();
    q->domain = s->domain; q->type = SOCK_STREAM; q->connected = true; q->cap = s->cap;
    q->local = a; q->remote = s->local; q->peer = s; // accepted sockets share the listening port
    s->peer = q; s->connected = true; s->remote = a;
    ls->accept_q.push_back(q);
    drop_of(o);
    return 0;
}
int sim_accept(int fd, sockaddr *sa, socklen_t *l)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    Sock *s = o->sock;
    if (!s->listening) return fail(EINVAL);
    if (s->accept_q.empty() && (o->flags & O_NONBLOCK)) return fail(EAGAIN);
    if (unsigned v = kfault(F_SYSCALL_FAIL, 2)) return fail(v == 1 ? EMFILE : ECONNABORTED);
    o->refs++;
    bool ok = wait_until([s] { return !s->accept_q.empty(); }, "accept", true);
    drop_of(o);
    if (!ok) return fail(EINTR);
    Sock *q = s->accept_q.front();
    s->accept_q.pop_front();
    socks->push_back(q);
    OFile *n = new_of(K_SOCK);
    n->sock = q; n->flags = O_RDWR;
    from_addr(q->remote, sa, l);
    return alloc_fd(n, false);
}
static bool readable(Sock *s)
{
    if (s->listening) return !s->accept_q.empty();
    if (s->type == SOCK_DGRAM) return !s->dgrams.empty();
    return !s->rx.empty() || s->fin_seen || s->rd_shut || s->reset || !s->connected;
}
static bool writable(Sock *s)
{
    if (s->type == SOCK_DGRAM) return true;
    if (!s->connected) return true;
    if (s->wr_shut || s->reset || s->dead_peer || !s->peer) return true;
    return s->peer->rx.size() + s->peer->inflight < s->peer->cap;
}
static ssize_t sock_recv(OFile *o, void *buf, size_t n, int flags, sockaddr *sa, socklen_t *sl)
{
    Sock *s = o->sock;
    if (s->type == SOCK_STREAM && !s->connected) return fail(ENOTCONN);
    if (kfault(F_EINTR)) return fail(EINTR);
    if (s->type == SOCK_STREAM && kfault(F_NET_RESET)) { s->reset = true; if (s->peer) s->peer->reset = true; n_resets++; }
    if (!readable(s)) {
        if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { n_eagain++; return fail(EAGAIN); }
        bool to = false;
        bool ok = wait_until([s] { return readable(s); }, "socket data", true, s->rcvtimeo ? now_ns() + s->rcvtimeo : ~0ull, &to);
        if (!ok) return fail(EINTR);
        if (to && !readable(s)) return fail(EAGAIN);
    }
    if (s->type == SOCK_DGRAM) {
        auto d = s->dgrams.front();
        if (!(flags & MSG_PEEK)) s->dgrams.pop_front();
        size_t k = std::min(n, d.second.size());
        if (is_kos() && !mem_nocheck) mem_check(buf, k, true);
        memcpy(buf, d.second.data(), k);
        from_addr(d.first, sa, sl);
        return k;
    }
    if (s->reset) { s->reset = false; s->fin_seen = true; s->rx.clear(); s->dead_peer = true; return fail(ECONNRESET); }
    size_t k = std::min(n, s->rx.size());
    if (k > 1 && !(flags & MSG_WAITALL) && kfault(F_SHORT_IO)) k = 1 + k / 3;
    if (k) { if (is_kos() && !mem_nocheck) mem_check(buf, k, true); memcpy(buf, s->rx.data(), k); if (!(flags & MSG_PEEK)) s->rx.erase(0, k); }
    if ((flags & MSG_WAITALL) && !(flags & MSG_PEEK) && !(o->flags & O_NONBLOCK)) {
        while (k < n && !s->fin_seen && !s->rd_shut && !s->reset) {
            bool to = false;
            if (!wait_until([s] { return readable(s); }, "socket data", true, s->rcvtimeo ? now_ns() + s->rcvtimeo : ~0ull, &to) || (to && !readable(s))) break;
            const size_t m = std::min(n - k, s->rx.size());
            if (m) { if (is_kos() && !mem_nocheck) mem_check((char *)buf + k, m, true); memcpy((char *)buf + k, s->rx.data(), m); s->rx.erase(0, m); k += m; }
        }
    }
    if (sa && sl) from_addr(s->remote, sa, sl);
    return k;
}
static ssize_t sock_send(OFile *o, const void *buf, size_t n, int flags, const Addr *to)
{
    Sock *s = o->sock;
    if (s->type == SOCK_DGRAM) {
        if (!to && !s->connected) return fail(EDESTADDRREQ);
        Addr a = to ? *to : s->remote;
        ensure_local(s);
        n_dgrams++;
        if (n > 65507) return fail(EMSGSIZE);
        if (kfault(F_EINTR)) return fail(EINTR);
        unsigned v = 0;
        if (fault(F_DGRAM_DROP)) return n;
        Sock *d = find_listener(a, SOCK_DGRAM);
        if (!d) return n;
        Addr from = s->local; if (any_ip(from)) from.ip = s->domain == AF_INET ? "127.0.0.1" : "::1";
        std::string data((const char *)buf, n);
        if (fault(F_DGRAM_DUP)) d->dgrams.push_back({from, data});
        if ((v = fault(F_DGRAM_REORDER)) && !d->dgrams.empty()) d->dgrams.push_front({from, data});
        else d->dgrams.push_back({from, data});
        return n;
    }
    if (!s->connected) return fail(ENOTCONN);
    if (kfault(F_EINTR)) return fail(EINTR);
    if (kfault(F_NET_RESET)) { s->reset = true; if (s->peer) s->peer->reset = true; n_resets++; }
    size_t done = 0;
    while (done < n) {
        if (s->reset) { s->reset = false; s->dead_peer = true; s->fin_seen = true; s->rx.clear(); if (done) break; return fail(ECONNRESET); }
        if (s->wr_shut || s->dead_peer || !s->peer || s->peer->closed) { if (done) break; return fail(EPIPE); }
        if (!writable(s)) {
            if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { if (done) break; n_eagain++; return fail(EAGAIN); }
            bool tmo = false;
            bool ok = wait_until([s] { return writable(s); }, "socket room", true, s->sndtimeo ? now_ns() + s->sndtimeo : ~0ull, &tmo);
            if (!ok) { if (done) break; return fail(EINTR); }
            if (tmo && !writable(s)) { if (done) break; return fail(EAGAIN); }
            continue;
        }
        Sock *p = s->peer;
        size_t k = std::min(n - done, (size_t)p->cap - p->rx.size() - p->inflight);
        if (k > 1 && kfault(F_SHORT_IO)) { k = 1 + k / 3; n = done + k; }
        if (is_kos() && !mem_nocheck) mem_check((const char *)buf + done, k, false);
        std::string d((const char *)buf + done, k);
        done += k;
        uint64_t at = std::max(now_ns(), p->last_arrival);
        if (fault(F_NET_DELAY)) at = std::max(at, now_ns()) + 1000 + (mix(spec.seed, now_ns()) % 5000000);
        if (at <= now_ns() && !p->inflight) p->rx += d;
        else { p->inflight += k; if (at <= p->last_arrival) at = p->last_arrival + 1; p->last_arrival = at; set_event(at, [p, d] { p->rx += d; p->inflight -= d.size(); }); }
    }
    return done;
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { pause_point(); OFile *o = gets_(fd); if (!o) return -1; if (is_kos()) mem_check(b, n, true); o->refs++; slow_io(); ssize_t r = sock_recv(o, b, n, fl, nullptr, nullptr); int e = errno; drop_of(o); errno = e; return r; }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, sockaddr *sa, socklen_t *sl) { pause_point(); OFile *o = gets_(fd); if (!o) return -1; if (is_kos()) mem_check(b, n, true); o->refs++; slow_io(); ssize_t r = sock_recv(o, b, n, fl, sa, sl); int e = errno; drop_of(o); errno = e; return r; }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { pause_point(); OFile *o = gets_(fd); if (!o) return -1; if (is_kos()) mem_check(b, n, false); o->refs++; slow_io(); ssize_t r = sock_send(o, b, n, fl, nullptr); int e = errno; drop_of(o); errno = e; return r; }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const sockaddr *sa, socklen_t sl)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    Addr a;
    if (sa && !to_addr(sa, sl, &a)) return fail(EINVAL);
    if (is_kos()) mem_check(b, n, false);
    o->refs++;
    slow_io();
    ssize_t r = sock_send(o, b, n, fl, sa ? &a : nullptr);
    int e = errno; drop_of(o); errno = e;
    return r;
}
int sim_shutdown(int fd, int how)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    Sock *s = o->sock;
    if (!s->connected) return fail(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->wr_shut) {
        s->wr_shut = true;
        if (s->peer && !s->peer->closed) { Sock *p = s->peer; if (!p->inflight) p->fin_seen = true; else set_event(p->last_arrival + 1, [p] { p->fin_seen = true; }); }
    }
    return 0;
}
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    pause_point();
    if (unsigned v = kfault(F_SELECT_FAIL, 2)) return fail(v == 1 ? EINTR : ENOMEM);
    auto rd = [](int fd) { OFile *o = get(fd); if (!o) return true; if (o->kind == K_SOCK) return readable(o->sock); if (o->kind == K_PIPE_R) return !o->pipe->buf.empty() || !o->pipe->writers; return true; };
    auto wr = [](int fd) { OFile *o = get(fd); if (!o) return true; if (o->kind == K_SOCK) return writable(o->sock); if (o->kind == K_PIPE_W) return o->pipe->buf.size() < pipe_capacity || !o->pipe->readers; return true; };
    std::vector<int> rf, wf;
    for (int i = 0; i < nfds; i++) {
        if (r && FD_ISSET(i, r)) { if (!get(i)) return fail(EBADF); rf.push_back(i); }
        if (w && FD_ISSET(i, w)) { if (!get(i)) return fail(EBADF); wf.push_back(i); }
    }
    Proc *p = me();
    auto any = [&, p] { Proc *sv = thrproc[self()]; thrproc[self()] = p; bool ok = false; for (int f : rf) ok |= rd(f); for (int f : wf) ok |= wr(f); thrproc[self()] = sv; return ok; };
    if (!any()) {
        uint64_t dl = tv ? now_ns() + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000ull : ~0ull;
        bool to = false;
        bool ok = wait_until(any, "select", true, dl, &to);
        if (!ok) return fail(EINTR);
    }
    int n = 0;
    if (r) { FD_ZERO(r); for (int f : rf) if (rd(f)) { FD_SET(f, r); n++; } }
    if (w) { FD_ZERO(w); for (int f : wf) if (wr(f)) { FD_SET(f, w); n++; } }
    if (e) FD_ZERO(e);
    return n;
}
int sim_getsockopt(int fd, int level, int opt, void *val, socklen_t *l)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    std::string &v = o->sock->opts[{level, opt}];
    if (v.empty()) v.assign(*l, '\0');
    size_t k = std::min((size_t)*l, v.size());
    memcpy(val, v.data(), k); *l = k;
    return 0;
}
int sim_setsockopt(int fd, int level, int opt, const void *val, socklen_t l)
{
    pause_point();
    OFile *o = gets_(fd); if (!o) return -1;
    o->sock->opts[{level, opt}].assign((const char *)val, l);
    if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
        const struct timeval *tv = (const struct timeval *)val;
        (opt == SO_RCVTIMEO ? o->sock->rcvtimeo : o->sock->sndtimeo) = tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull;
    }
    return 0;
}
int sim_getsockname(int fd, sockaddr *sa, socklen_t *l) { OFile *o = gets_(fd); if (!o) return -1; from_addr(o->sock->local, sa, l); return 0; }
int sim_getpeername(int fd, sockaddr *sa, socklen_t *l) { OFile *o = gets_(fd); if (!o) return -1; if (!o->sock->connected) return fail(ENOTCONN); from_addr(o->sock->remote, sa, l); return 0; }
int sim_getaddrinfo(const char *host, const char *serv, const struct addrinfo *h, struct addrinfo **out)
{
    pause_point();
    if (unsigned v = kfault(F_NET_REFUSE, 2)) return v == 1 ? EAI_AGAIN : EAI_MEMORY;
    std::string hs = host ? host : "";
    if (hs == "localhost") hs = h && h->ai_family == AF_INET6 ? "::1" : "127.0.0.1";
    if (hs.empty()) hs = (h && (h->ai_flags & AI_PASSIVE)) ? "0.0.0.0" : "127.0.0.1";
    struct in_addr a4; struct in6_addr a6;
    Addr a;
    if (inet_pton(AF_INET, hs.c_str(), &a4) == 1) a.family = AF_INET;
    else if (inet_pton(AF_INET6, hs.c_str(), &a6) == 1) a.family = AF_INET6;
    else return EAI_NONAME;
    if (h && h->ai_family != AF_UNSPEC && h->ai_family != a.family) return EAI_FAMILY;
    a.ip = hs; a.port = serv ? atoi(serv) : 0;
    struct addrinfo *prev = nullptr;
    for (int type : {SOCK_STREAM, SOCK_DGRAM}) {
        if (h && h->ai_socktype && h->ai_socktype != type) continue;
        struct addrinfo *ai = (struct addrinfo *)sim_alloc(sizeof(struct addrinfo), 16, false);
        memset(ai, 0, sizeof *ai);
        sockaddr *sa = (sockaddr *)sim_alloc(sizeof(sockaddr_in6), 16, false);
        socklen_t l = sizeof(sockaddr_in6);
        from_addr(a, sa, &l);
        ai->ai_family = a.family; ai->ai_socktype = type; ai->ai_protocol = type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP; ai->ai_addr = sa; ai->ai_addrlen = l;
        if (prev) prev->ai_next = ai; else *out = ai;
        prev = ai;
    }
    return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { pause_point(); while (a) { struct addrinfo *n = a->ai_next; sim_dealloc(a->ai_addr); sim_dealloc(a); a = n; } }

} // extern "C"

namespace sim {
int wait_sock(int fd, bool r, bool w, const bool *stop, uint64_t ns)
{
    OFile *o = gets_(fd);
    if (!o) harness_error("wait_sock");
    Sock *s = o->sock;
    auto ready = [=] { return (r && readable(s) ? 1 : 0) | (w && writable(s) ? 2 : 0); };
    pause_point();
    wait_until([=] { return *stop || ready(); }, "a connection", false, ns ? now_ns() + ns : ~0ull);
    return ready();
}
} // namespace sim
