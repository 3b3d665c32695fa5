// C18: stores and streams against a map from names to byte strings
#include "model.h"
#include <memory>

enum Kind { BYTE, BYTES, I32, I64, U32, U64, VINT, VOFF, VLL, STR, NKIND };
static const char *KN[] = {"byte", "bytes", "i32", "i64", "u32", "u64", "vint", "voff_t", "vll", "string"};
struct Item { off_t pos; off_t len; Kind kind; uint64_t v; string s; };
struct File { string data; vector<Item> items; };             // one version of a file's contents, shared by those who opened it
typedef std::shared_ptr<File> FileP;

struct Out { string name; vector<FrtOutStream *> os; off_t pos = 0, len = 0; FileP f; map<off_t, uint8_t> raw; };   // raw: bytes whose value is known
struct In { string what; FrtInStream *is; FileP f; off_t pos; bool known; int group; };

static uint64_t any_num(Rng &r, int bits) {
    uint64_t v;
    switch (r.below(6)) { case 0: v = r.below(3); break; case 1: v = (uint64_t)1 << r.below(bits); break; case 2: v = ((uint64_t)1 << r.below(bits)) - 1; break; case 3: v = ~(uint64_t)0 >> r.below(bits); break; case 4: v = r.below(1000); break; default: v = r.next() >> r.below(64); }
    return bits < 64 ? v & (((uint64_t)1 << bits) - 1) : v;
}
static string some_bytes(Rng &r, int n) { string s(n, 0); for (auto &c : s) c = (char)r.below(256); return s; }
static int some_size(Rng &r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return r.range(FRT_BUFFER_SIZE - 12, FRT_BUFFER_SIZE + 12); case 3: return r.range(2 * FRT_BUFFER_SIZE - 4, 2 * FRT_BUFFER_SIZE + 4); case 4: return FRT_BUFFER_SIZE; case 5: return r.range(1, 3000); default: return r.range(1, 60); } }

static void write_item(FrtOutStream *os, const Item &i) {
    switch (i.kind) {
    case BYTE: frt_os_write_byte(os, (frt_uchar)i.v); break;
    case BYTES: frt_os_write_bytes(os, (const frt_uchar *)i.s.data(), (int)i.s.size()); break;
    case I32: frt_os_write_i32(os, (frt_i32)i.v); break;
    case I64: frt_os_write_i64(os, (frt_i64)i.v); break;
    case U32: frt_os_write_u32(os, (frt_u32)i.v); break;
    case U64: frt_os_write_u64(os, i.v); break;
    case VINT: frt_os_write_vint(os, (unsigned)i.v); break;
    case VOFF: frt_os_write_voff_t(os, (off_t)i.v); break;
    case VLL: frt_os_write_vll(os, i.v); break;
    default: frt_os_write_string_len(os, i.s.data(), (int)i.s.size()); break;
    }
}
static Item gen_item(Rng &r) {
    Item i; i.kind = (Kind)r.below(NKIND); i.v = 0; i.pos = i.len = 0;
    switch (i.kind) {
    case BYTE: i.v = r.below(256); break;
    case BYTES: i.s = some_bytes(r, some_size(r)); break;
    case I32: case U32: case VINT: i.v = any_num(r, 32); break;
    case I64: case U64: case VLL: i.v = any_num(r, 64); break;
    case VOFF: i.v = any_num(r, 63); break;
    default: i.s = some_bytes(r, some_size(r)); for (auto &c : i.s) if (!c) c = 'a'; break;
    }
    return i;
}

struct StoreWorld {
    Rng &rng; vector<FrtStore *> st; vector<string> sn; string dir;
    map<string, FileP> files; vector<Out *> outs; vector<In> ins; vector<FrtStore *> cmpds; long reads = 0, eofs = 0, writes = 0, serial = 0;
    StoreWorld(Rng &r) : rng(r) {}
    string pick_name(bool existing) {
        if (existing && !files.empty()) { auto it = files.begin(); std::advance(it, rng.below((uint32_t)files.size())); return it->first; }
        static const char *ex[] = {"fdt", "tis", "cfs", "prx", "f0"};
        return rng.chance(1, 5) ? fmt("%s%d", rng.chance(1, 2) ? "ferret-x" : "q", rng.below(4)) : fmt("_%d.%s", rng.below(6), ex[rng.below(5)]);
    }
    bool being_written(const string &n) { for (auto *o : outs) if (o->name == n) return true; return false; }
    void forget_readers(FileP f) { for (size_t i = 0; i < ins.size();) if (ins[i].f == f) { frt_is_close(ins[i].is); ins.erase(ins.begin() + i); } else i++; }

    void start_write() {
        string n = pick_name(rng.chance(1, 3)); if (being_written(n) || outs.size() > 3) return;
        // a compound file keeps reading the file it was opened from, so its name is not written again
        auto it = files.find(n);
        if (it != files.end()) { if (locked.count(it->second)) return; }
        bool late = rng.chance(1, 2);      // what was there may still be open for reading when it is written anew
        if (it != files.end() && !late) forget_readers(it->second);
        Out *o = new Out; o->name = n; o->f = std::make_shared<File>(); for (auto *s : st) o->os.push_back(s->new_output(s, n.c_str()));
        if (it != files.end() && late) forget_readers(it->second);
        outs.push_back(o); note("write %s", n.c_str());
        files[n] = o->f;
    }
    set<FileP> locked;
    void write_some(Out &o, int n) {
        for (int k = 0; k < n; k++) {
            if (o.len && rng.chance(1, 12)) {                               // go back and overwrite
                off_t p = rng.chance(1, 4) ? o.len : (off_t)rng.below((uint32_t)o.len + 1); o.pos = p;
                for (auto *os : o.os) frt_os_seek(os, p);
                note("%s: seek %ld", o.name.c_str(), (long)p);
            }
            Item i = gen_item(rng); i.pos = o.pos; writes++;
            for (size_t q = 0; q < o.os.size(); q++) {
                write_item(o.os[q], i); off_t e = frt_os_pos(o.os[q]);
                if (q == 0) i.len = e - o.pos;
                CHECK(e - o.pos == i.len, "store-differ", "%s: writing a %s moves to %ld in %s, to %ld in %s", o.name.c_str(), KN[i.kind], (long)e, sn[q].c_str(), (long)(o.pos + i.len), sn[0].c_str());
            }
            off_t fixed = i.kind == BYTE ? 1 : i.kind == BYTES ? (off_t)i.s.size() : i.kind == I32 || i.kind == U32 ? 4 : i.kind == I64 || i.kind == U64 ? 8 : -1;
            CHECK(fixed < 0 || i.len == fixed, "store-pos", "%s: writing a %s at %ld moved by %ld", o.name.c_str(), KN[i.kind], (long)o.pos, (long)i.len);
            CHECK(i.len > 0 || (i.kind == BYTES && i.s.empty()), "store-pos", "%s: writing a %s did not move the position", o.name.c_str(), KN[i.kind]);
            note("%s: %s at %ld, %ld long", o.name.c_str(), KN[i.kind], (long)i.pos, (long)i.len);
            // what it overwrites is no longer there
            off_t b = i.pos, e = i.pos + i.len;
            auto &it = o.f->items; it.erase(std::remove_if(it.begin(), it.end(), [&](const Item &x) { return x.pos < e && x.pos + x.len > b; }), it.end());
            o.raw.erase(o.raw.lower_bound(b), o.raw.lower_bound(e));
            if (i.kind == BYTE) o.raw[b] = (uint8_t)i.v; if (i.kind == BYTES) for (off_t q = 0; q < i.len; q++) o.raw[b + q] = (uint8_t)i.s[q];
            it.push_back(i); o.pos = e; if (e > o.len) o.len = e;
            if (o.len > 20000) break;
        }
        if (rng.chance(1, 10)) for (auto *os : o.os) frt_os_flush(os);
    }
    void finish(size_t k) {
        Out *o = outs[k]; for (auto *os : o->os) frt_os_close(os); outs.erase(outs.begin() + k);
        CHECK(read_file(dir + "/" + o->name, o->f->data), "store-length", "%s is not on disk", o->name.c_str());
        CHECK((off_t)o->f->data.size() == o->len, "store-length", "%s has %zu bytes on disk, %ld were written", o->name.c_str(), o->f->data.size(), (long)o->len);
        for (auto &p : o->raw) CHECK((uint8_t)o->f->data[p.first] == p.second, "store-bytes", "%s: byte %ld is %d on disk, %d was written", o->name.c_str(), (long)p.first, (uint8_t)o->f->data[p.first], p.second);
        note("close %s, %ld bytes", o->name.c_str(), (long)o->len);
        FileP f = o->f; string n = o->name; delete o;
        open_readers(n, f);
    }
    FileP file(const string &n) { auto i = files.find(n); return i == files.end() ? nullptr : i->second; }
    void add_in(const string &what, FrtInStream *is, FileP f, off_t pos, int g) {
        CHECK(is_length(is) == (off_t)f->data.size(), "store-length", "%s: the stream has length %ld, the file %zu bytes", what.c_str(), (long)is_length(is), f->data.size());
        CHECK(frt_is_pos(is) == pos, "store-pos", "%s: a fresh stream is at %ld", what.c_str(), (long)frt_is_pos(is)); ins.push_back({what, is, f, pos, true, g});
    }
    void open_readers(const string &n, FileP f) { if (ins.size() > 30) return; for (size_t q = 0; q < st.size(); q++) add_in(sn[q] + ":" + n, st[q]->open_input(st[q], n.c_str()), f, 0, 0); }
    void clone_one() { if (ins.empty() || ins.size() > 40) return; In &i = ins[rng.below((uint32_t)ins.size())]; FrtInStream *c = frt_is_clone(i.is); In n = i; n.what += "'"; n.is = c; ins.push_back(n); note("clone %s", n.what.c_str()); }
    void seek(In &i, off_t p) { frt_is_seek(i.is, p); CHECK(frt_is_pos(i.is) == p, "store-pos", "%s: after a seek to %ld the position is %ld", i.what.c_str(), (long)p, (long)frt_is_pos(i.is)); i.pos = p; i.known = true; note("%s: seek %ld", i.what.c_str(), (long)p); }
    void read_item(In &i, const Item &x) {
        string got; uint64_t v = 0; off_t at = i.pos; string why; note("%s: read a %s at %ld", i.what.c_str(), KN[x.kind], (long)at);
        vector<frt_uchar> b(x.s.size() + 1); char *s = nullptr;
        int e = guarded([&] { switch (x.kind) {
            case BYTE: v = frt_is_read_byte(i.is); break;
            case BYTES: frt_is_read_bytes(i.is, b.data(), (int)x.s.size()); break;
            case I32: v = (uint32_t)frt_is_read_i32(i.is); break;
            case I64: v = (uint64_t)frt_is_read_i64(i.is); break;
            case U32: v = frt_is_read_u32(i.is); break;
            case U64: v = frt_is_read_u64(i.is); break;
            case VINT: v = frt_is_read_vint(i.is); break;
            case VOFF: v = (uint64_t)frt_is_read_voff_t(i.is); break;
            case VLL: v = frt_is_read_vll(i.is); break;
            default: s = rng.chance(1, 2) ? frt_is_read_string(i.is) : frt_is_read_string_safe(i.is); } }, &why);
        CHECK(!e, "store-read-raises", "%s: reading the %s at %ld (%ld bytes of %zu) raises %d %s", i.what.c_str(), KN[x.kind], (long)at, (long)x.len, i.f->data.size(), e, why.c_str());
        if (x.kind == BYTES) got.assign((char *)b.data(), x.s.size()); else if (x.kind == STR) { got = s; free(s); }
        CHECK(v == x.v && got == x.s, "store-value", "%s: the %s at %ld reads as %llx/%s, %llx/%s was written", i.what.c_str(), KN[x.kind], (long)at, (unsigned long long)v, esc(got).substr(0, 60).c_str(), (unsigned long long)x.v, esc(x.s).substr(0, 60).c_str());
        i.pos += x.len; CHECK(frt_is_pos(i.is) == i.pos, "store-pos", "%s: after the %s at %ld the position is %ld", i.what.c_str(), KN[x.kind], (long)at, (long)frt_is_pos(i.is)); reads++; nontrivial();
    }
    void expect_eof(In &i, const char *what, std::function<void()> f) {
        string why; off_t p = i.pos; int e = guarded(f, &why); eofs++; i.known = false;
        CHECK(e, "store-eof", "%s: %s at %ld of a file of %zu bytes returns data", i.what.c_str(), what, (long)p, i.f->data.size());
        CHECK(e == FRT_EOF_ERROR, "store-eof-code", "%s: %s at %ld of a file of %zu bytes raises %d %s, not an end-of-file error", i.what.c_str(), what, (long)p, i.f->data.size(), e, why.c_str());
    }
    void use(In &i) {
        off_t len = (off_t)i.f->data.size();
        for (int k = rng.range(1, 4); k > 0; k--) {
            int c = rng.below(10);
            if (!i.known || c == 0) seek(i, rng.chance(1, 8) ? len : len ? (off_t)rng.below((uint32_t)len) : 0);
            if (c <= 3 && !i.f->items.empty()) { const Item &x = i.f->items[rng.below((uint32_t)i.f->items.size())]; seek(i, x.pos); read_item(i, x); for (auto &y : i.f->items) if (y.pos == i.pos && y.len && rng.chance(2, 3)) { read_item(i, y); } }
            else if (c <= 5) {
                off_t left = len - i.pos; int n = left > 0 ? rng.chance(1, 3) ? (int)left : (int)rng.below((uint32_t)std::min<off_t>(left, 2500) + 1) : 0;
                vector<frt_uchar> b(n + 8, 0xEE); string why; note("%s: read %d bytes at %ld", i.what.c_str(), n, (long)i.pos);
                int e = guarded([&] { frt_is_read_bytes(i.is, b.data(), n); }, &why); CHECK(!e, "store-read-raises", "%s: reading %d bytes at %ld of %ld raises %d %s", i.what.c_str(), n, (long)i.pos, (long)len, e, why.c_str());
                CHECK(!memcmp(b.data(), i.f->data.data() + i.pos, n), "store-value", "%s: %d bytes at %ld are not those written", i.what.c_str(), n, (long)i.pos);
                CHECK(b[n] == 0xEE, "store-overrun", "%s: reading %d bytes wrote more", i.what.c_str(), n);
                i.pos += n; CHECK(frt_is_pos(i.is) == i.pos, "store-pos", "%s: after %d bytes the position is %ld, not %ld", i.what.c_str(), n, (long)frt_is_pos(i.is), (long)i.pos); reads++;
            } else if (c <= 6) { for (int q = rng.range(1, 20); q > 0 && i.pos < len; q--) { int v = -1; string why; int e = guarded([&] { v = frt_is_read_byte(i.is); }, &why); CHECK(!e && v == (uint8_t)i.f->data[i.pos], "store-value", "%s: byte %ld of %ld reads as %d (%d %s)", i.what.c_str(), (long)i.pos, (long)len, v, e, why.c_str()); i.pos++; reads++; } }
            else if (c <= 7) { // past the end
                int k2 = rng.below(6); FrtInStream *is = i.is; vector<frt_uchar> b(5000);
                if (k2 == 0) { seek(i, len); expect_eof(i, "read_byte", [&] { frt_is_read_byte(is); }); }
                else if (k2 == 1) { off_t back = rng.below(5); if (back > len) back = len; seek(i, len - back); int n = (int)back + 1 + (rng.chance(1, 2) ? 0 : rng.below(3000)); note("reading %d bytes there", n); expect_eof(i, "read_bytes past the end", [&] { frt_is_read_bytes(is, b.data(), n); }); }
                else if (k2 == 2) { off_t back = rng.below(4); if (back > len) back = len; seek(i, len - back); expect_eof(i, "read_i32/u32", [&] { if (back & 1) frt_is_read_i32(is); else frt_is_read_u32(is); }); }
                else if (k2 == 3) { off_t back = rng.below(8); if (back > len) back = len; seek(i, len - back); expect_eof(i, "read_i64/u64", [&] { if (back & 1) frt_is_read_i64(is); else frt_is_read_u64(is); }); }
                else if (k2 == 4) { seek(i, len + rng.below(3) * rng.below(4000)); int q = rng.below(4); expect_eof(i, "a variable length read", [&] { if (q == 0) frt_is_read_vint(is); else if (q == 1) frt_is_read_vll(is); else if (q == 2) frt_is_read_voff_t(is); else free(frt_is_read_string_safe(is)); }); }
                else { seek(i, len + 1 + rng.below(5000)); int q = rng.below(3); expect_eof(i, "a read beyond the end", [&] { if (q == 0) frt_is_read_byte(is); else if (q == 1) frt_is_read_bytes(is, b.data(), 1); else frt_is_read_i32(is); }); }
            } else if (c <= 8) { // skip variable length numbers
                vector<size_t> vs; for (size_t q = 0; q < i.f->items.size(); q++) if (i.f->items[q].kind == VINT || i.f->items[q].kind == VOFF || i.f->items[q].kind == VLL) vs.push_back(q);
                if (vs.empty()) continue; off_t p = i.f->items[vs[rng.below((uint32_t)vs.size())]].pos; seek(i, p); int n = 0; off_t e = p;
                for (bool more = true; more && n < 5;) { more = false; for (auto q : vs) if (i.f->items[q].pos == e) { e += i.f->items[q].len; n++; more = true; break; } }
                frt_is_skip_vints(i.is, n); i.pos = e; CHECK(frt_is_pos(i.is) == e, "store-pos", "%s: skipping %d numbers from %ld leads to %ld, not %ld", i.what.c_str(), n, (long)p, (long)frt_is_pos(i.is), (long)e);
            } else if (len) { // copy a stretch of the file
                off_t p = rng.below((uint32_t)len); int n = (int)rng.below((uint32_t)(len - p) + 1); seek(i, p); string tn = fmt("cp%ld", serial++); FrtStore *s = st[rng.below((uint32_t)st.size())];
                FrtOutStream *os = s->new_output(s, tn.c_str()); frt_is2os_copy_bytes(i.is, os, n); CHECK(frt_os_pos(os) == n, "store-pos", "copying %d bytes moved the output to %ld", n, (long)frt_os_pos(os)); frt_os_close(os); i.pos = p + n; CHECK(frt_is_pos(i.is) == i.pos, "store-pos", "%s: copying %d bytes from %ld leads to %ld", i.what.c_str(), n, (long)p, (long)frt_is_pos(i.is));
                FrtInStream *in = s->open_input(s, tn.c_str()); vector<frt_uchar> b(n + 1); frt_is_read_bytes(in, b.data(), n); bool ok = is_length(in) == n && !memcmp(b.data(), i.f->data.data() + p, n); frt_is_close(in); s->remove(s, tn.c_str()); CHECK(ok, "store-copy", "%s: %d bytes copied from %ld differ", i.what.c_str(), n, (long)p);
            }
        }
    }
    void compound() {
        vector<string> use; for (auto &p : files) if (!being_written(p.first) && rng.chance(1, 2)) use.push_back(p.first);
        if (use.empty()) return; for (size_t k = use.size(); k > 1; k--) std::swap(use[k - 1], use[rng.below((uint32_t)k)]);
        size_t q = rng.below((uint32_t)st.size()); FrtStore *s = st[q]; string cn = fmt("_c%ld.cfs", serial++);
        static std::set<string> names; const char *keep = names.insert(cn).first->c_str();       // the store keeps the pointer
        FrtCompoundWriter *cw = frt_open_cw(s, (char *)keep); for (auto &n : use) frt_cw_add_file(cw, (char *)n.c_str()); frt_cw_close(cw);
        FrtStore *cs = frt_open_cmpd_store(s, keep); note("compound %s in %s of %zu files", keep, sn[q].c_str(), use.size());
        check_listing(cs, "compound", [&] { set<string> x(use.begin(), use.end()); return x; }());
        for (auto &n : use) { CHECK(cs->length(cs, n.c_str()) == (off_t)files[n]->data.size(), "store-length", "compound: %s has length %ld, not %zu", n.c_str(), (long)cs->length(cs, n.c_str()), files[n]->data.size()); CHECK(cs->exists(cs, n.c_str()), "store-exists", "compound: %s is not there", n.c_str()); if (rng.chance(2, 3)) add_in(sn[q] + ":cmpd:" + n, cs->open_input(cs, n.c_str()), files[n], 0, 1000 + (int)cmpds.size()); }
        CHECK(!cs->exists(cs, "nope"), "store-exists", "compound: a missing file exists");
        string why; FrtInStream *is = nullptr; int e = guarded([&] { is = cs->open_input(cs, "nope"); }, &why); CHECK(e, "store-missing", "compound: opening a missing file succeeds");
        // as a list of files in another store
        s->remove(s, rng.chance(1, 2) ? keep : "nope2"); { int ex = s->exists(s, keep); if (ex) s->remove(s, keep); }      // open streams go on reading
        cmpds.push_back(cs); count("compounds", 1);
    }
    // more files than fit in one byte of the count
    void big_compound() {
        size_t q = rng.below((uint32_t)st.size()); FrtStore *s = st[q]; int n = rng.pick(vector<int>{100, 127, 128, 129, 255, 256, 300}); vector<string> names, data; note("compound of %d files in %s", n, sn[q].c_str());
        for (int k = 0; k < n; k++) { names.push_back(fmt("_b%d.fdt", k)); data.push_back(some_bytes(rng, rng.below(20))); FrtOutStream *os = s->new_output(s, names[k].c_str()); frt_os_write_bytes(os, (const frt_uchar *)data[k].data(), (int)data[k].size()); frt_os_close(os); }
        FrtCompoundWriter *cw = frt_open_cw(s, (char *)"_big.cfs"); for (auto &x : names) frt_cw_add_file(cw, (char *)x.c_str()); frt_cw_close(cw);
        FrtStore *cs = frt_open_cmpd_store(s, "_big.cfs"); CHECK(cs->count(cs) == n, "store-count", "a compound of %d files counts %d", n, cs->count(cs));
        for (int k = 0; k < n; k++) {
            CHECK(cs->exists(cs, names[k].c_str()) && cs->length(cs, names[k].c_str()) == (off_t)data[k].size(), "store-length", "%s in a compound of %d files has length %ld, not %zu", names[k].c_str(), n, cs->exists(cs, names[k].c_str()) ? (long)cs->length(cs, names[k].c_str()) : -1L, data[k].size());
            FrtInStream *is = cs->open_input(cs, names[k].c_str()); vector<frt_uchar> b(data[k].size() + 1); frt_is_read_bytes(is, b.data(), (int)data[k].size()); frt_is_close(is); CHECK(!memcmp(b.data(), data[k].data(), data[k].size()), "store-value", "%s in a compound of %d files differs", names[k].c_str(), n);
        }
        frt_store_deref(cs); s->remove(s, "_big.cfs"); for (auto &x : names) s->remove(s, x.c_str()); count("large compounds", 1);
    }
    // who may use a file on disk: its owner, the group of the directory as far as it may use the directory, nobody else
    void check_modes(mode_t dm) {
        for (auto &p : files) { struct stat b; string f = dir + "/" + p.first; if (stat(f.c_str(), &b)) continue; mode_t want = 0600 | (dm & 060), got = b.st_mode & 0777; CHECK(got == want, "store-mode", "%s has mode %o, expected %o in a directory with %o", p.first.c_str(), got, want, dm); count("file modes", 1); }
    }
    static void add_name(const char *n, void *arg) { ((vector<string> *)arg)->push_back(n); }
    void check_listing(FrtStore *s, const string &what, const set<string> &want) {
        vector<string> got; s->each(s, add_name, &got); set<string> g(got.begin(), got.end());
        if (g != want || got.size() != g.size()) { string a, b; for (auto &x : want) a += x + " "; for (auto &x : got) b += x + " "; fail("store-listing", "%s lists %s; it holds %s", what.c_str(), b.c_str(), a.c_str()); }
        CHECK(s->count(s) == (int)want.size(), "store-count", "%s counts %d files, %zu are there", what.c_str(), s->count(s), want.size());
        char *t = frt_store_to_s(s); string w; for (auto &x : want) w += x + "\n"; string ts = t; free(t); CHECK(ts == w, "store-listing", "%s as a string is %s", what.c_str(), esc(ts).c_str());
    }
    void check_names() {
        set<string> want; for (auto &p : files) want.insert(p.first);
        for (size_t q = 0; q < st.size(); q++) {
            check_listing(st[q], sn[q], want);
            for (int k = 0; k < 3; k++) { string n = pick_name(k > 0); bool ex = files.count(n); CHECK((bool)st[q]->exists(st[q], n.c_str()) == ex, "store-exists", "%s: exists(%s) is %d", sn[q].c_str(), n.c_str(), !ex); if (ex && !being_written(n)) CHECK(st[q]->length(st[q], n.c_str()) == (off_t)files[n]->data.size(), "store-length", "%s: %s has length %ld, not %zu", sn[q].c_str(), n.c_str(), (long)st[q]->length(st[q], n.c_str()), files[n]->data.size()); if (!ex) { FrtInStream *is = nullptr; string why; int e = guarded([&] { is = st[q]->open_input(st[q], n.c_str()); }, &why); CHECK(e == FRT_FILE_NOT_FOUND_ERROR, "store-missing", "%s: opening the missing %s gives %d %s", sn[q].c_str(), n.c_str(), e, why.c_str()); } }
        }
    }
    void run() {
        int n = rng.range(8, 60);
        for (int k = 0; k < n; k++) {
            int c = rng.below(30);
            if (c < 5) start_write();
            else if (c < 11) { if (!outs.empty()) write_some(*outs[rng.below((uint32_t)outs.size())], rng.range(1, 12)); }
            else if (c < 14) { if (!outs.empty()) finish(rng.below((uint32_t)outs.size())); }
            else if (c < 22) { for (int q = 0; q < 3; q++) if (!ins.empty()) use(ins[rng.below((uint32_t)ins.size())]); }
            else if (c < 24) clone_one();
            else if (c < 25) compound();
            else if (c < 26) { string a = pick_name(true); if (being_written(a)) continue; bool ex = files.count(a); note("remove %s", a.c_str()); for (size_t q = 0; q < st.size(); q++) { int r = st[q]->remove(st[q], a.c_str()); CHECK((r == 0) == ex, "store-remove", "%s: remove(%s) returns %d, the file %s", sn[q].c_str(), a.c_str(), r, ex ? "was there" : "was not there"); } if (ex) files.erase(a); }
            else if (c < 27) {
                string a = pick_name(true), b = pick_name(rng.chance(1, 2)); if (being_written(a) || being_written(b)) continue; note("rename %s to %s", a.c_str(), b.c_str()); bool ex = files.count(a);
                for (size_t q = 0; q < st.size(); q++) { string why; int e = guarded([&] { st[q]->rename(st[q], a.c_str(), b.c_str()); }, &why); CHECK((e == 0) == ex, "store-rename", "%s: renaming %s to %s gives %d %s", sn[q].c_str(), a.c_str(), b.c_str(), e, why.c_str()); CHECK(!e || e == FRT_IO_ERROR, "store-rename", "%s: renaming the missing %s raises %d", sn[q].c_str(), a.c_str(), e); }
                if (ex && a != b) { files[b] = files[a]; files.erase(a); }
            } else if (c < 28) { string a = pick_name(rng.chance(1, 3)); if (being_written(a)) continue; note("touch %s", a.c_str()); for (auto *s : st) s->touch(s, a.c_str()); if (!files.count(a)) files[a] = std::make_shared<File>(); }
            else if (c < 29) { if (!ins.empty()) { size_t q = rng.below((uint32_t)ins.size()); note("close %s", ins[q].what.c_str()); frt_is_close(ins[q].is); ins.erase(ins.begin() + q); } }
            else if (rng.chance(1, 2)) compound();
            else { string a = pick_name(true); auto f = file(a); if (f && !being_written(a)) open_readers(a, f); }
            if (rng.chance(1, 3)) check_names();
        }
        while (!outs.empty()) { write_some(*outs[0], 2); finish(0); }
        check_names();
        for (auto &p : files) { open_readers(p.first, p.second); }
        for (auto &i : ins) { vector<frt_uchar> b(i.f->data.size() + 1); seek(i, 0); frt_is_read_bytes(i.is, b.data(), (int)i.f->data.size()); CHECK(!memcmp(b.data(), i.f->data.data(), i.f->data.size()), "store-value", "%s read as a whole differs", i.what.c_str()); i.pos = (off_t)i.f->data.size(); use(i); }
        if (rng.chance(1, 3)) { // a copy in memory
            FrtStore *c = frt_open_ram_store_and_copy(st[rng.below((uint32_t)st.size())], 0); set<string> want; for (auto &p : files) want.insert(p.first); check_listing(c, "copy", want);
            for (auto &p : files) { FrtInStream *is = c->open_input(c, p.first.c_str()); In i = {"copy:" + p.first, is, p.second, 0, true, 0}; use(i); frt_is_close(is); } frt_store_deref(c);
        }
        for (auto &i : ins) frt_is_close(i.is); ins.clear(); for (auto *c : cmpds) frt_store_deref(c);
        if (rng.chance(1, 3)) for (size_t q = 0; q < st.size(); q++) { for (auto &p : files) if (p.first[0] != '_') st[q]->remove(st[q], p.first.c_str()); if (rng.chance(1, 2)) st[q]->clear(st[q]); else st[q]->clear_all(st[q]); check_listing(st[q], sn[q] + " after clear", {}); }
    }
};
MODE(store) {
    DirGuard dg("st"); StoreWorld w(rng); w.dir = dg.d; umask(022);
    struct stat db; CHECK(stat(dg.d.c_str(), &db) == 0, "harness", "no directory"); mode_t dm = rng.pick(vector<int>{0700, 0750, 0770, 0755, 0775}); bool own_group = db.st_gid == getgid(); chmod(dg.d.c_str(), dm);
    w.st.push_back(frt_open_fs_store(dg.d.c_str())); w.sn.push_back("disk"); w.st.push_back(frt_open_ram_store()); w.sn.push_back("memory");
    w.run(); if (own_group) w.check_modes(dm); if (rng.chance(1, 15)) w.big_compound(); for (auto *s : w.st) frt_store_deref(s);
    sig(fmt("r%ld w%ld e%ld", w.reads, w.writes, w.eofs)); count("values read", w.reads); count("values written", w.writes); count("ends of file", w.eofs);
}
// memory buffers used while a segment is built: filled, reset, copied out
MODE(rambuf) {
    FrtOutStream *b = frt_ram_new_buffer(); FrtStore *s = frt_open_ram_store(); string want;
    for (int round = rng.range(1, 5); round > 0; round--) {
        int n = rng.range(0, 30); for (int k = 0; k < n; k++) { string x = some_bytes(rng, some_size(rng)); if (rng.chance(1, 2)) frt_os_write_bytes(b, (const frt_uchar *)x.data(), (int)x.size()); else for (auto c : x) frt_os_write_byte(b, (frt_uchar)c); want += x; }
        if (!want.empty() && rng.chance(1, 2)) { size_t p = rng.below((uint32_t)want.size()); frt_os_seek(b, (off_t)p); frt_os_write_byte(b, 'Z'); want[p] = 'Z'; frt_os_seek(b, (off_t)want.size()); }
        CHECK(frt_os_pos(b) == (off_t)want.size(), "rambuf-pos", "the position is %ld, %zu bytes were written", (long)frt_os_pos(b), want.size());
        string name = fmt("b%d", round); FrtOutStream *o = s->new_output(s, name.c_str()); string pre = some_bytes(rng, rng.below(30)); frt_os_write_bytes(o, (const frt_uchar *)pre.data(), (int)pre.size()); frt_ramo_write_to(b, o); CHECK(frt_os_pos(o) == (off_t)(pre.size() + want.size()), "rambuf-pos", "copying %zu bytes moved to %ld", want.size(), (long)frt_os_pos(o)); frt_os_close(o);
        CHECK(frt_ramo_length(b) == (off_t)want.size(), "rambuf-length", "length %ld, %zu bytes were written", (long)frt_ramo_length(b), want.size());
        FrtInStream *is = s->open_input(s, name.c_str()); CHECK(is_length(is) == (off_t)(pre.size() + want.size()), "rambuf-length", "the copy has length %ld", (long)is_length(is)); vector<frt_uchar> g(pre.size() + want.size() + 1); frt_is_read_bytes(is, g.data(), (int)(pre.size() + want.size())); frt_is_close(is);
        CHECK(string((char *)g.data(), pre.size() + want.size()) == pre + want, "rambuf-value", "the copy of %zu bytes differs", want.size()); nontrivial();
        if (rng.chance(1, 2)) { frt_ramo_reset(b); want.clear(); CHECK(frt_ramo_length(b) == 0 && frt_os_pos(b) == 0, "rambuf-reset", "after a reset the length is %ld", (long)frt_ramo_length(b)); }
        count("buffers", 1);
    }
    sig(fmt("%zu", want.size())); frt_ram_destroy_buffer(b); frt_store_deref(s);
}
