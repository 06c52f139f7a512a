// Stand-ins that keep random configurations from touching anything real: System V shared
// memory is emulated in this process' own heap, name resolution never leaves the process.
#pragma once
#include <map>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <netdb.h>
#include <sys/ipc.h>
#include <sys/shm.h>
namespace contain {
struct Seg { int id; size_t size; void* p; };
inline std::map<int, Seg>& segs() { static std::map<int, Seg> m; return m; }
inline int& next_id() { static int n = 100; return n; }
inline size_t& page_limit() { static size_t n = 64u << 20; return n; }
}
extern "C" {
int shmget(key_t key, size_t size, int flag) __THROW {
    auto& m = contain::segs(); auto it = m.find((int)key);
    if (it != m.end()) { if ((flag & IPC_CREAT) && (flag & IPC_EXCL)) { errno = EEXIST; return -1; } return it->second.id; }
    if (!(flag & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (size > contain::page_limit()) { errno = EINVAL; return -1; }
    contain::Seg s = {contain::next_id()++, size, calloc(1, size)}; m[(int)key] = s; return s.id;
}
void* shmat(int id, const void*, int) __THROW { for (auto& k : contain::segs()) if (k.second.id == id) return k.second.p; errno = EINVAL; return (void*)-1; }
int shmdt(const void*) __THROW { return 0; }
int shmctl(int id, int cmd, struct shmid_ds*) __THROW {
    for (auto it = contain::segs().begin(); it != contain::segs().end(); ++it) if (it->second.id == id) { if (cmd == IPC_RMID) { free(it->second.p); contain::segs().erase(it); } return 0; }
    errno = EINVAL; return -1;
}
struct hostent* gethostbyname(const char*) {
    static struct hostent h; static char* list[2]; free(list[0]); list[0] = (char*)malloc(4); memcpy(list[0], "\x7f\x01\x02\x03", 4); list[1] = nullptr;
    h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; h.h_name = (char*)"h"; return &h;
}
}
