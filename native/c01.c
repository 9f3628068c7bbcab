/* C01: posting lists, tok.c encoder against reader.c decoder */
#include "vp.h"
#include "tok.c"
#include "reader.c"
unsigned int hashfn(unsigned char *k, unsigned int l, unsigned int i) { return 0; }

static void run(const int *v, int n, const char *what)
{
  struct matches m, c;
  struct int_list_reader r;
  int i, out, want[6000], nw = 0, got;
  char *enc;
  init_matches(&m);
  for (i = 0; i < n; i++) {
    check_and_enlarge_encoding(&m);
    if (m.n + 4 > m.max) vp_fail("no room after check_and_enlarge_encoding: n=%d max=%d", m.n, m.max);
    insert_index_on_encoding(&m, v[i]);
    if (!nw || want[nw-1] != v[i]) want[nw++] = v[i];
    if ((int) m.highest != v[i]) vp_fail("highest is %lu after inserting %d", m.highest, v[i]);
  }
  matches_int_list_reader_init(&r, &m);
  for (i = 0; i < nw; i++) {
    got = int_list_reader_read(&r, &out);
    if (!got) vp_fail("list ends after %d of %d entries", i, nw);
    if (out != want[i]) vp_fail("entry %d reads back as %d, inserted %d", i, out, want[i]);
  }
  if (int_list_reader_read(&r, &out)) vp_fail("extra entry %d", out);
  /* through a database image: bytes then the 0xff terminator, other data behind it */
  {
    struct read_db db;
    unsigned off = vp_below(64);
    memset(&db, 0, sizeof db);
    db.len = off + m.n + 1 + 8;
    db.data = malloc(db.len);
    memset(db.data, 0x05, db.len);
    if (m.n) memcpy(db.data + off, m.msginfo, m.n);
    db.data[off + m.n] = (char) 0xff;
    read_db_int_list_reader_init(&r, &db, off);
    for (i = 0; i < nw; i++) {
      if (!int_list_reader_read(&r, &out)) vp_fail("database list ends after %d of %d entries", i, nw);
      if (out != want[i]) vp_fail("database entry %d reads back as %d, inserted %d", i, out, want[i]);
    }
    if (int_list_reader_read(&r, &out)) vp_fail("database list: extra entry %d past the terminator", out);
    read_db_int_list_reader_init(&r, &db, off);
    memset(&c, 0xa5, sizeof c);
    int_list_reader_copy(&r, &c);
    if (c.n != m.n || (c.n && memcmp(c.msginfo, m.msginfo, c.n))) vp_fail("copy differs");
    if (c.max < c.n || c.max < 16) vp_fail("copy max %d n %d", c.max, c.n);
    if (nw && (int) c.highest != want[nw-1]) vp_fail("copy highest %ld", (long) c.highest);
    if (!nw && c.highest != 0) vp_fail("highest of an empty copy is %lu", c.highest);
    /* a copied list can be extended */
    if (nw && want[nw-1] < 1000000000) {
      int nv = want[nw-1] + 1 + vp_below(40000);
      check_and_enlarge_encoding(&c);
      insert_index_on_encoding(&c, nv);
      matches_int_list_reader_init(&r, &c);
      for (i = 0; i < nw; i++) if (!int_list_reader_read(&r, &out) || out != want[i]) vp_fail("extended copy entry %d", i);
      if (!int_list_reader_read(&r, &out) || out != nv) vp_fail("extended copy lost %d", nv);
    }
    free(c.msginfo);
    /* truncated image: never past the end (checked by the allocator), never a value not inserted */
    if (m.n > 0) {
      char *cut;
      int tl = 1 + vp_below(m.n);
      cut = malloc(tl);
      memcpy(cut, m.msginfo, tl);
      db.len = tl;
      free(db.data);
      db.data = cut;
      read_db_int_list_reader_init(&r, &db, 0);
      for (i = 0; int_list_reader_read(&r, &out); i++)
        if (i >= nw || out != want[i]) vp_fail("truncated list yields %d", out);
    }
    free(db.data);
  }
  if (m.msginfo) free(m.msginfo);
  vp_nontrivial();
  vp_sample();
}

int main(int argc, char **argv)
{
  static const int inc[] = {0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 8191, 8192, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 1<<20, (1<<24)-1, 1<<24, (1<<24)+1, (1<<28)-1, 0x0fedcba9, (62<<24)+0xffffff};
  int ni = sizeof inc / sizeof inc[0], a, b, c, v[6000], n, i;
  vp_init(argc, argv);
  vp_case("empty list");
  run(v, 0, "");
  for (a = 0; a < ni; a++) {
    v[0] = inc[a];
    vp_case("insert %d", v[0]);
    run(v, 1, "");
    for (b = 0; b < ni; b++) {
      if ((long) v[0] + inc[b] >= (63L<<24)) continue;
      v[1] = v[0] + inc[b];
      vp_case("insert %d, %d", v[0], v[1]);
      run(v, 2, "");
      for (c = 0; c < ni; c += 1) {
        if ((long) v[1] + inc[c] >= (63L<<24)) continue;
        v[2] = v[1] + inc[c];
        vp_case("insert %d, %d, %d", v[0], v[1], v[2]);
        run(v, 3, "");
      }
    }
  }
  for (i = 0; i < 17000; i++) {
    v[0] = i; v[1] = 2 * i; v[2] = 2 * i + 1;
    vp_case("insert %d, %d, %d", v[0], v[1], v[2]);
    run(v, 3, "");
  }
  for (i = 0; i < (vp_thorough ? 20000 : 1500); i++) {
    long cur = 0, lim = 63L << 24;
    int mode = vp_below(5), len = 1 + vp_below(vp_below(4) ? 60 : 5000);
    unsigned long seed = vp_s;
    n = 0;
    while (n < len) {
      long step = mode == 0 ? vp_below(3) : mode == 1 ? vp_below(200) : mode == 2 ? vp_below(20000) : mode == 3 ? inc[vp_below(20)] : (long) vp_below(1u << vp_below(26));
      if (cur + step >= lim) break;
      cur += step;
      v[n++] = cur;
    }
    vp_case("random list seed=%lu mode=%d n=%d first=%d last=%d", seed, mode, n, v[0], v[n-1]);
    run(v, n, "");
  }
  return vp_done();
}
