// Simulated kernel: file system, stdio, pipes, processes, sockets, clock.
#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Node {
    enum Type { FILE_, DIR_, LINK_ } type = FILE_;
    std::string data;
    std::map<std::string, Node *> kids;
    std::string target;
    int mode = 0644;
    int nlink = 1;
    uint64_t mtime = 0;
    uint64_t ino = 0;
    int program = 0;                 // simulated executable
    int lock_owner = 0;              // flock: open file description id
    int opens = 0;
};

enum Program { P_NONE, P_TRUE, P_EXIT, P_CAT, P_SLEEP, P_KILLSELF, P_WRITER, P_SINK, P_ENV, P_STOP, P_NOEXEC, P_BOTH };

void   kernel_init();                           // fresh file system, fd table with 0,1,2
Node  *fs_lookup(const std::string &path, bool follow = true);
Node  *fs_mkfile(const std::string &path, const std::string &data);
Node  *fs_mkdir(const std::string &path);
void   fs_remove(const std::string &path);
void   fs_load_real_dir(const std::string &real, const std::string &virt, const char *suffix);
std::string &console_out();
extern std::map<int, std::pair<std::string, std::string>> *group_said;   // if set: what each group of threads wrote to stdout and stderr                     // bytes written to fd 1 and 2 of the Kos process
std::string &console_err();
void   flush_std();                             // what exit() does to the standard streams
void   set_stdin(const std::string &s);
int    open_fds();                              // open descriptors of the Kos process
int    open_files();                            // open FILE objects (excluding std streams)
int    open_dirs();
std::string describe_fds();
int    live_children();                         // not reaped children of the Kos process
int    zombie_children();
int    running_children();
int    exited_children();
void   set_env(const std::vector<std::string> &e);
extern uint64_t disk_capacity;                  // bytes; ~0 unlimited
extern uint32_t pipe_capacity;
extern bool     pid_reuse;                      // pids of reaped children are given out again
extern int64_t  wall_offset_ns;                 // clock jumps
uint64_t fs_used();
extern uint64_t n_eagain, n_execs, n_forks, n_resets, n_dgrams;
struct ProcInfo { int pid; int state; int status; };   // state 0 running,1 zombie,2 reaped, 3 stopped
std::vector<ProcInfo> children();
bool kill_child(int pid, int sig);

extern std::map<std::string, void *> native_symbols;   // "set.symbol" of simulated shared libraries
int  open_libs();                               // libraries opened and not closed
// harness-side processes with own descriptor table (remote peers)
int  wait_sock(int fd, bool r, bool w, const bool *stop, uint64_t ns);  // 1 readable, 2 writable; ns 0 = no limit
int  spawn_process(const std::function<void()> &body, const char *name);
} // namespace sim
