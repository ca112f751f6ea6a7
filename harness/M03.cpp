//@stubs env fs
//@flags -I$VERIF/stubs/fsinc
//@repo src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/Util/FileUtil.cpp src/Common/GrinStr.cpp src/PMMR/Common/Index.cpp
//@bounds every sequence of 5 (thorough 6) record operations and 4 (5) bitmap operations among append, rewind to any size, commit, rollback and reopen, on files of three-byte records and on bitmap files, record contents unconstrained; bitmap positions 0, 7 and 21; a crash at every change of the disk, torn after any number of bytes, for whole-file writes
//@outside the operating system's page cache (writes are assumed to reach the disk in order); Roaring's own file format
#include "verif.h"
#include "vfs.h"
#include <Core/File/DataFile.h>
#include <Core/File/BitmapFile.h>
#include <Common/Util/FileUtil.h>
typedef std::vector<uint8_t> Rec;
static bool same(const Rec &a, const Rec &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
HARNESS(records) {
  vfs::reset(); auto f = DataFile<3>::Load("/d/data.bin"); std::vector<Rec> now, disk; int n = verif_tier() ? 6 : 5;
  for (int i = 0; i < n; i++) {
    switch (v_choose("op", 0, 5)) {
    case 0: case 5: { Rec r = v_bytes("record", 3); f->AddData(r); now.push_back(r); break; }
    case 1: {
      uint64_t to = v_choose("to", 0, now.size() + 1); bool ok = true; try { f->Rewind(to); } catch (FileException &) { ok = false; }
      CHECK(ok == (to <= now.size()), "rewind-refused-exactly-beyond-the-end"); if (ok) now.resize(to); break; }
    case 2: f->Commit(); disk = now; break;
    case 3: f->Rollback(); now = disk; break;
    case 4: f.reset(); f = DataFile<3>::Load("/d/data.bin"); now = disk; break;
    }
    CHECK(f->GetSize() == now.size(), "size-is-what-was-written");
    for (size_t k = 0; k < now.size(); k++) CHECK(same(f->GetDataAt(k), now[k]), "reads-what-was-written");
    bool refused = false; try { f->GetDataAt(now.size()); } catch (FileException &) { refused = true; }
    CHECK(refused, "read-beyond-the-end-is-refused");
  }
  REACH("sequence");
}
HARNESS(farRead) {
  vfs::reset(); auto f = DataFile<3>::Load("/d/data.bin"); f->AddData(v_bytes("record", 3)); if (v_fork("committed")) f->Commit(); f->AddData(v_bytes("record", 3));
  uint64_t at = v_u64("position"); verif_assume(at >= 2); bool refused = false; try { f->GetDataAt(at); } catch (FileException &) { refused = true; }
  CHECK(refused, "read-beyond-the-end-is-refused");
  verif_assume(at >= 3); refused = false; try { f->Rewind(at); } catch (FileException &) { refused = true; } CHECK(refused, "rewind-refused-exactly-beyond-the-end"); REACH("far");
}
HARNESS(bitmap) {
  vfs::reset(); auto f = BitmapFile::Load("/d/leaf.bin"); uint64_t now = 0, disk = 0; int n = verif_tier() ? 5 : 4; static const uint8_t at[] = { 0, 7, 21 };
  for (int i = 0; i < n; i++) {
    uint64_t op = v_choose("op", 0, 5);
    if (op <= 1) { uint64_t b = at[v_choose("bit", 0, 2)]; if (op == 0) { f->Set(b); now |= 1ull << b; } else { f->Unset(b); now &= ~(1ull << b); } }
    else if (op == 2) { static const uint8_t ts[] = { 0, 7, 22 }; uint64_t t = ts[v_choose("leaves", 0, 2)], b = at[v_choose("bit", 0, 2)]; std::vector<uint64_t> add; if (v_fork("restore")) { add.push_back(b); now |= 1ull << b; } f->Rewind(t, add); now &= (1ull << t) - 1; }
    else if (op == 3) { f->Commit(); disk = now; }
    else if (op == 4) { f->Rollback(); now = disk; }
    else { f.reset(); f = BitmapFile::Load("/d/leaf.bin"); now = disk; }
    for (uint64_t b = 0; b < 48; b++) CHECK(f->IsSet(b) == ((now >> b) & 1), "bit-is-what-was-written");
  }
  REACH("bitmap");
}
// replacing a file leaves the old or the new content whenever the process dies
HARNESS(replace) {
  vfs::reset(); Rec a = v_bytes("old", 3), b = v_bytes("new", v_choose("len", 1, 3)); bool had = v_fork("existed"); if (had) FileUtil::SafeWriteToFile("/d/f", a);
  bool dead = v_fork("dies"); if (dead) { vfs::step = 0; vfs::crashAt = v_choose("crash", 0, 6); vfs::torn = v_choose("torn", 0, 3); }
  FileUtil::SafeWriteToFile("/d/f", b); bool crashed = vfs::step > vfs::crashAt; vfs::reset();
  Rec got; bool there = FileUtil::ReadFile("/d/f", got);
  if (!crashed) CHECK(there && same(got, b), "replaced-file-has-the-new-content");
  else if (had) CHECK(there && (same(got, a) || same(got, b)), "crash-leaves-old-or-new-content");
  else CHECK(!there || same(got, b), "crash-leaves-old-or-new-content");
  REACH("replace");
}
