// Image recipes, the image builder and the reference model of an image.
#pragma once
#include "rt.h"

// A file's content is a list of runs of blocks: h hole, z compressible data stored compressed, u random data stored
// uncompressed, p compressible data stored uncompressed; `tail` bytes follow, as a fragment ('f') or a short block ('b').
struct Run { char k; u32 n; };
struct NodeR {
  int parent = 0; std::string name; char type = 'f';   // d f l(symlink) b c p s H(hard link)
  u32 perm = 0644; u32 uidx = 0, gidx = 0; u32 mtime = 0; bool ext = false;
  std::vector<Run> runs; u32 tail = 0; char tailk = 'f'; u32 seed = 0;
  std::string target; u32 major = 0, minor = 0; int link = -1;
};
struct ImageR {
  u32 blocklog = 12; u32 offset = 0; bool cmd = true, cdata = true, cfrag = true, xport = true, index = true; u32 seed = 1;
  u32 nids = 3; u32 mdpad = 0;         // mdpad: extra unused ids so that the id table spans several metadata blocks
  int frags = 1;                        // 0 no fragments, 1 tails share fragment blocks, 2 every tail has its own
  int gapat = 0; u64 gap = 0;           // a part of the image (1 data, 2 inodes, 3 directories, 4 fragment table, 5 export table, 6 ids, 7 later files) starts at position gap; 1: 4 GiB behind another block of its kind
  int junk = 0;                         // 1 inode table, 2 directory table: more than 64 KiB of unused metadata lie in it
  u32 inostep = 1;                      // distance of inode numbers, as in an image with many more inodes
  u32 fragpad = 0;                      // entries of the fragment table in front of those that are used
  std::vector<NodeR> nodes;            // node 0 is the root directory
};
std::string img_to_text(const ImageR& r);            // one line per node
bool img_from_lines(const std::vector<std::string>& lines, ImageR& r);

struct SB { char kind; u32 pos; u32 hdr; u32 len; bool comp; };   // stored block: kind i inode d directory t table D data F fragment
struct Kid { std::string name; int node; u64 nextoff; u64 off; };
struct Node {
  char type = 'd'; u32 perm = 0, mtime = 0, nlink = 1, ino = 0; u64 iref = 0; u64 size = 0; u32 major = 0, minor = 0; u32 uidx = 0;
  std::string target; std::vector<Kid> kids; int parent = -1; int rid = -1;
  std::vector<int> blkSB; int fragSB = -1, fragTabSB = -1; std::vector<int> inoSB, listSB, idSB; int xportSB = -1;
  std::vector<char> blkKind; char tailk = 0; u32 tail = 0; u32 seed = 0; u32 nblocks = 0; bool blockidx = false;
  u32 mode() const;
};
struct Image {
  ImageR r; std::vector<u8> bytes; std::vector<SB> sbs; std::vector<Node> nodes; std::vector<u32> ids; std::vector<int> idTabSB; u64 key = 0;
  u32 bs = 4096; std::vector<std::pair<int, int>> hotkids;   // (directory, entry) next to header and index boundaries
  void content(int node, u64 off, u64 len, std::string& out) const;
  size_t gapAt = 0; u64 gapLen = 0; u8* at(u8* base, size_t pos) const { return base + pos + (gapLen && pos >= gapAt ? gapLen : 0); }
  int child(int dir, const std::string& name) const;   // -1 none
};
Image* img_build(const ImageR& r);

enum { MAXLINKS = 32 };   // SQUASHFS_MAX_LINK_LEVEL: more links on one way may be refused
enum { RES_OK, RES_NOENT, RES_LOOP, RES_ERR, RES_ANY };
struct Resolved { int st = RES_NOENT; int node = -1; int links = 0; int alt = -2; std::vector<int> visited; };
// roots: prefixes that count as the image root in absolute link targets (root aliases)
Resolved img_resolve(const Image& im, const std::string& path, bool follow, const std::vector<std::string>& alias);
void need_inode(const Image& im, int node, std::set<int>& s);
void need_list(const Image& im, int node, std::set<int>& s);
void need_data(const Image& im, int node, u64 off, u64 len, std::set<int>& s);
std::string link_text(const std::string& target, const std::vector<std::string>& alias);
