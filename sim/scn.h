// Scenarios: what one simulated run does.
#pragma once
#include "image.h"

enum OpKind {
  K_NONE, K_START, K_MOUNT, K_UNMOUNT, K_MOUNTBAD, K_OPEN, K_CLOSE, K_READ, K_LSEEK, K_FSTAT, K_BADFD, K_STAT, K_LSTAT, K_READLINK,
  K_OPENDIR, K_READDIR, K_TELLDIR, K_SEEKDIR, K_REWIND, K_CLOSEDIR, K_DIRFD, K_SCANDIR, K_TOPEN, K_TNEXT, K_TPRUNE, K_TCLOSE,
  K_EXTRACT, K_CLEAR, K_EXPORT, K_IDGET, K_RANGE, K_DITER, K_TMPF, K_APPOPEN, K_APPCLOSE, K_CLOCK, K_POKE, K_UNPOKE, K_NOFILE, K_DISK, K_FOREIGN,
  K_CLOSE0, K_ATEXIT, K_HASH, K_STACK, K_REPEAT_, K_RMEXT,
  E_CHDIR, E_GETCWD, E_STAT, E_LSTAT, E_READLINK, E_OPEN, E_OPENAT, E_CLOSE, E_READ, E_LSEEK, E_FSTAT, E_PREAD, E_READV, E_OPENDIR, E_FDOPENDIR,
  E_READDIR, E_TELLDIR, E_SEEKDIR, E_REWIND, E_CLOSEDIR, E_DIRFD, E_SCANDIR, E_ACCESS, E_MKDIR, E_IF, E_IFEXTRACT, E_DLOPEN, E_EXECV, E_ENTER, E_WRITE, E_SYMLINK, E_EXEPATH, K_N
};
extern const char* op_names[K_N];
struct Op { int id = 0; int kind = 0; int s = 0, a = 0, b = 0; i64 x = 0, y = 0; std::string p, q; };
struct Seg { std::vector<std::vector<Op>> th; };
struct Life { std::vector<Seg> segs; };
struct Scn {
  std::string prop, profile; u64 seed = 0; SimConf conf; std::vector<ImageR> imgs; std::vector<Life> lives; std::vector<Fault> faults;
  int crash_op = -1; u64 crash_step = 0; std::vector<Switch> sw; bool replay = false;
  int nops() const { int n = 0; for (auto& l : lives) for (auto& s : l.segs) for (auto& t : s.th) n += t.size(); return n; }
};
std::string scn_to_text(const Scn& s);
bool scn_from_text(const std::string& t, Scn& s);

// run: executes a scenario; images come from the pool
Image* pool_get(const ImageR& r); void pool_trim();
void run_scn(const Scn& s, bool collect);
extern std::vector<bool> EXECUTED;   // ops that were not skipped (by id)
Scn gen_scn(const std::string& prop, u64 seed, int tier);
void gen_faults(Scn& s, u64 seed);   // second pass: chooses faults among the points the dry run passed
bool relevant(const std::string& prop, const Scn& s, const Violation& v);
std::string describe(const std::string& prop);   // weights of the generator, as JSON
