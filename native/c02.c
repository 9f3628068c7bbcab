/* C02: word and substring matching of search.c against an edit-distance oracle */
#include "vp.h"
#include "search.c"

/* smallest number of insertions, deletions and substitutions turning some substring of w into p */
static int best(const char *p, const char *w)
{
  int n = strlen(p), m = strlen(w), i, j, d[40][90], r = 1000;
  for (j = 0; j <= m; j++) d[0][j] = 0;
  for (i = 1; i <= n; i++) {
    d[i][0] = i;
    for (j = 1; j <= m; j++) {
      int x = d[i-1][j-1] + (p[i-1] != w[j-1]);
      if (d[i-1][j] + 1 < x) x = d[i-1][j] + 1;
      if (d[i][j-1] + 1 < x) x = d[i][j-1] + 1;
      d[i][j] = x;
    }
  }
  for (j = 0; j <= m; j++) if (d[n][j] < r) r = d[n][j];
  return r;
}

static void one(char *p, char *w)
{
  unsigned long a[256], hit, r[40], nr[40];
  int b = best(p, w), k, got;
  char *t;
  build_match_vector(p, a, &hit);
  t = malloc(strlen(w) + 1);
  strcpy(t, w);
  for (k = 0; k <= 8; k++) {
    vp_case("pattern '%s' word '%s' errors %d", p, w, k);
    got = k == 0 ? substring_match_0(a, hit, 0, t) : k == 1 ? substring_match_1(a, hit, 0, t) : k == 2 ? substring_match_2(a, hit, 0, t)
        : k == 3 ? substring_match_3(a, hit, 0, t) : substring_match_general(a, hit, 0, t, k, r, nr);
    if (!!got != (b <= k)) vp_fail("best alignment has %d errors, match says %d", b, got);
    if (k <= 3 || 1) {
      int g = substring_match_general(a, hit, 0, t, k, r, nr);
      if (!!g != (b <= k)) vp_fail("general matcher: best alignment has %d errors, match says %d", b, g);
    }
  }
  vp_case("anchored pattern '%s' word '%s'", p, w);
  got = substring_match_0(a, hit, 1, t);
  if (!!got != !strncmp(p, w, strlen(p))) vp_fail("anchored match says %d", got);
  if (b < 3) { vp_nontrivial(); vp_sample(); }
  free(t);
}

/* a database image holding one table */
#define NM 60
static void table(void)
{
  struct read_db db;
  struct toktable_db *tt = &db.subject;
  struct toktable2_db *t2 = &db.msg_ids;
  static char data[60000];
  static unsigned to[40], eo[40], po[NM], mp[5];
  static unsigned char tf[NM];
  static char in[40][NM], hits[NM], want[NM];
  static char path[NM][30], mpath[5][30];
  int n = 1 + vp_below(39), i, j, p = 0, nm = 1 + vp_below(NM), q;
  char pat[12];
  memset(&db, 0, sizeof db);
  p = vp_below(40);
  for (i = 0; i < n; i++) {
    int l = 1 + vp_below(7), last = 0;
    to[i] = p;
    for (j = 0; j < l; j++) data[p++] = 'a' + vp_below(3);
    data[p++] = 0;
    eo[i] = p;
    for (j = 0; j < nm; j++) {
      in[i][j] = vp_below(4) == 0;
      if (in[i][j]) { data[p++] = j - last; last = j; }
    }
    data[p++] = (char) 0xff;
  }
  for (i = 0; i < 5; i++) {
    sprintf(mpath[i], "/m%d/%c%c", i, 'a' + vp_below(3), 'a' + vp_below(3));
    mp[i] = p;
    strcpy(data + p, mpath[i]);
    p += strlen(mpath[i]) + 1;
  }
  for (i = 0; i < nm; i++) {
    tf[i] = vp_below(4) | (vp_below(8) << 3);
    po[i] = p;
    if ((tf[i] & 7) == DB_MSG_MBOX) {
      int m = vp_below(5);
      struct { unsigned mb, msg; } e;
      e.mb = m; e.msg = i;
      memcpy(data + p, &e, 8);
      p += 8;
      strcpy(path[i], mpath[m]);
    } else {
      sprintf(path[i], "/x%d/%c%c%c", i, 'a' + vp_below(3), 'a' + vp_below(3), 'a' + vp_below(3));
      strcpy(data + p, path[i]);
      p += strlen(path[i]) + 1;
    }
  }
  db.len = p;
  db.data = malloc(p);
  memcpy(db.data, data, p);
  db.n_msgs = nm;
  tt->n = n; tt->tok_offsets = to; tt->enc_offsets = eo;
  t2->n = n; t2->tok_offsets = to; t2->enc0_offsets = eo; t2->enc1_offsets = eo;
  db.path_offsets = po; db.msg_type_and_flags = tf; db.mbox_paths_table = mp; db.n_mboxen = 5;
  for (q = 0; q < 30; q++) {
    int l = 1 + vp_below(5), k = vp_below(6), la = vp_below(3) == 0;
    if (la) k = 0;
    for (j = 0; j < l; j++) pat[j] = "abc/"[vp_below(q & 1 ? 4 : 3)];
    pat[l] = 0;
    vp_case("table of %d words, %d messages, pattern '%s' errors %d anchor %d", n, nm, pat, k, la);
    memset(hits, 0, NM); memset(want, 0, NM);
    for (j = 0; j < nm; j++) hits[j] = want[j] = j % 7 == 0;
    for (i = 0; i < n; i++) {
      char *w = db.data + to[i];
      if (la ? !strncmp(w, pat, l) : best(pat, w) <= k)
        for (j = 0; j < nm; j++) want[j] |= in[i][j];
    }
    match_substring_in_table(&db, tt, pat, k, la, hits);
    for (j = 0; j < nm; j++) if (!!hits[j] != want[j]) vp_fail("message %d: marked %d, should be %d", j, hits[j], want[j]);
    /* exact words */
    strcpy(pat, db.data + to[vp_below(n)]);
    if (vp_below(4) == 0) pat[strlen(pat) - 1] = 0;
    vp_case("table of %d words, %d messages, word '%s'", n, nm, pat);
    for (i = 0; i < 2; i++) {
      int z;
      for (j = 0; j < nm; j++) hits[j] = want[j] = j % 7 == 0;
      for (z = 0; z < n; z++) if (!strcmp(pat, db.data + to[z])) for (j = 0; j < nm; j++) want[j] |= in[z][j];
      if (i) match_string_in_table2(&db, t2, pat, hits); else match_string_in_table(&db, tt, pat, hits);
      for (j = 0; j < nm; j++) if (!!hits[j] != want[j]) vp_fail("word table %d, message %d: marked %d, should be %d", i, j, hits[j], want[j]);
    }
    /* paths */
    for (j = 0; j < l; j++) pat[j] = "abc/xm1"[vp_below(7)];
    pat[l] = 0;
    vp_case("paths of %d messages, pattern '%s' errors %d anchor %d", nm, pat, k, la);
    for (j = 0; j < nm; j++) {
      hits[j] = want[j] = j % 7 == 0;
      if ((tf[j] & 7) == DB_MSG_DEAD) want[j] = 0;
      else want[j] |= la ? !strncmp(path[j], pat, l) : best(pat, path[j]) <= k;
    }
    match_substring_in_paths(&db, pat, k, la, hits);
    for (j = 0; j < nm; j++) if (!!hits[j] != want[j]) vp_fail("path '%s' type %d: marked %d, should be %d", path[j], tf[j] & 7, hits[j], want[j]);
    vp_nontrivial();
  }
  free(db.data);
}

static void enumerate(int np, int nw)
{
  char p[8], w[8];
  long i, j, x, l, tp = 1, tw = 1;
  for (l = 0; l < np; l++) tp *= 3;
  for (l = 0; l < nw; l++) tw *= 3;
  for (i = 0; i < tp; i++) {
    for (x = i, l = 0; l < np; l++, x /= 3) p[l] = 'a' + x % 3;
    p[np] = 0;
    for (j = 0; j < tw; j++) {
      for (x = j, l = 0; l < nw; l++, x /= 3) w[l] = 'a' + x % 3;
      w[nw] = 0;
      one(p, w);
    }
  }
}

int main(int argc, char **argv)
{
  int i, j, a, b;
  char p[40], w[90];
  vp_init(argc, argv);
  for (a = 1; a <= 4; a++) for (b = 1; b <= (a < 4 || vp_thorough ? 4 : 3); b++) enumerate(a, b);
  for (i = 0; i < (vp_thorough ? 60000 : 6000); i++) {
    int np = 1 + vp_below(31), nw = 1 + vp_below(80), al = 2 + vp_below(4), hi = vp_below(5) == 0;
    for (j = 0; j < np; j++) p[j] = hi ? 1 + vp_below(255) : 'a' + vp_below(al);
    p[np] = 0;
    for (j = 0; j < nw; j++) w[j] = hi ? 1 + vp_below(255) : 'a' + vp_below(al);
    w[nw] = 0;
    if (np <= nw && vp_below(3)) {
      int e = vp_below(4);
      memcpy(w + vp_below(nw - np + 1), p, np);
      while (e--) w[vp_below(nw)] = 'a' + vp_below(al);
    }
    one(p, w);
  }
  for (i = 0; i < (vp_thorough ? 3000 : 300); i++) table();
  return vp_done();
}
