// In-memory files for the engine's build.
#include <fstream>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <sys/stat.h>
static ModelFile files[8]; static int nfiles = 0;
ModelFile* modelfs_find(const char* name, bool create) {
  for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, name)) { if (!files[i].exists) { if (!create) return nullptr; files[i].exists = true; files[i].size = 0; } return &files[i]; }
  if (!create || nfiles == 8) return nullptr;
  ModelFile* f = &files[nfiles++]; strncpy(f->name, name, 95); f->cap = 1 << 16; f->data = (unsigned char*)malloc(f->cap); f->size = 0; f->exists = true; return f;
}
void modelfs_put(ModelFile* f, long pos, const char* p, long n) { if (pos + n > f->cap) abort(); if (pos > f->size) memset(f->data + f->size, 0, pos - f->size); memcpy(f->data + pos, p, n); if (pos + n > f->size) f->size = pos + n; }
extern "C" int stat(const char* n, struct stat* st) { ModelFile* f = modelfs_find(n, false); if (!f) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_size = f->size; st->st_mode = S_IFREG | 0644; return 0; }
extern "C" int remove(const char* n) { ModelFile* f = modelfs_find(n, false); if (!f) return -1; f->exists = false; return 0; }
extern "C" int unlink(const char* n) { return remove(n); }
