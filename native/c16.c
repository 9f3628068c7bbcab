/* C16: glob patterns and colon-separated lists of glob.c against a reference written from the manual */
#include "vp.h"
#include "glob.c"

struct el { int kind; unsigned char set[256]; };   /* 0 one character of set, 1 '*', 2 '**' */
static struct el E[80];
static int nE;

static void parse(const char *p)
{
  nE = 0;
  while (*p) {
    struct el *e = &E[nE++];
    memset(e, 0, sizeof *e);
    if (*p == '*') {
      if (p[1] == '*') { e->kind = 2; p += 2; } else { e->kind = 1; p++; }
    } else if (*p == '?') {
      memset(e->set, 1, 256);
      p++;
    } else if (*p == '[') {
      int first = 1;
      p++;
      while (*p && (*p != ']' || first)) {
        if (p[1] == '-' && p[2] && p[2] != ']') {
          int lo = (unsigned char) p[0], hi = (unsigned char) p[2], i;
          if (lo > hi) { i = lo; lo = hi; hi = i; }
          for (i = lo; i <= hi; i++) e->set[i] = 1;
          p += 3;
        } else {
          e->set[(unsigned char) *p] = 1;
          p++;
        }
        first = 0;
      }
      if (*p) p++;
    } else {
      e->set[(unsigned char) *p++] = 1;
    }
  }
}

static int ref(const char *s)
{
  static char m[82][400];
  int n = strlen(s), i, j;
  for (i = nE; i >= 0; i--) for (j = n; j >= 0; j--) {
    int r;
    if (i == nE) r = j == n;
    else if (E[i].kind == 0) r = j < n && E[i].set[(unsigned char) s[j]] && m[i+1][j+1];
    else r = m[i+1][j] || (j < n && (E[i].kind == 2 || s[j] != '/') && m[i][j+1]);
    m[i][j] = r;
  }
  return m[0][0];
}

static struct globber *G;
static void one(const char *s)
{
  int want = ref(s), got;
  char *t = malloc(strlen(s) + 1);
  strcpy(t, s);
  got = is_glob_match(G, t);
  free(t);
  vp_cases++;
  if (want) vp_nontrivial();
  if (!!got != want) { char b[600]; snprintf(b, sizeof b, "%s against \"%s\"", vp_cur, s); strcpy(vp_cur, b); vp_fail("pattern %s but should%s", got ? "matches" : "does not match", want ? "" : " not"); }
}

static void setpat(const char *p)
{
  char *t = malloc(strlen(p) + 1);
  strcpy(t, p);
  if (G) free_globber(G);
  parse(p);
  vp_case("pattern \"%s\"", p);
  G = make_globber(t);
  free(t);
}

static const char *P[] = {"a", "b", "/", "*", "**", "?", "[ab]", "[]a]", "[a-]", "[b-c]", "-", "]"};
static const char A[] = "ab/-]c";

static void strings(char *b, int k, int max)
{
  const char *c;
  b[k] = 0;
  one(b);
  if (k < max) for (c = A; *c; c++) { b[k] = *c; strings(b, k + 1, max); }
}

static void pats(char *b, int k, int max)
{
  unsigned i;
  char s[32];
  int n = strlen(b);
  setpat(b);
  if (vp_below(4000) == 0) vp_sample();
  strings(s, 0, k >= 4 ? 3 : 4);
  if (k < max) for (i = 0; i < sizeof P / sizeof *P; i++) {
    if (n && b[n-1] == '*' && P[i][0] == '*') continue;
    strcpy(b + n, P[i]);
    pats(b, k + 1, max);
    b[n] = 0;
  }
}

static void lists(void)
{
  int it, i, n;
  for (it = 0; it < 20000; it++) {
    char want[12][40], line[500], *q = line;
    int k = 1 + vp_below(8), got;
    char **arr;
    for (i = 0; i < k; i++) {
      int l = vp_below(6) + (i == k - 1), j, m = 0;
      for (j = 0; j < l; j++) {
        char c = "ab:\\/.*"[vp_below(7)];
        if (c == ':') { *q++ = '\\'; }
        else if (c == '\\' && (j == l - 1 || 1)) c = 'x';
        *q++ = c;
        want[i][m++] = c;
      }
      want[i][m] = 0;
      if (i < k - 1) *q++ = ':';
    }
    *q = 0;
    vp_case("list \"%s\"", line);
    q = malloc(strlen(line) + 1);
    strcpy(q, line);
    split_on_colons(q, &got, &arr);
    free(q);
    if (got != k) vp_fail("%d entries, should be %d", got, k);
    for (i = 0; i < k; i++) if (strcmp(arr[i], want[i])) vp_fail("entry %d is \"%s\", should be \"%s\"", i, arr[i], want[i]);
    if (k > 2) vp_nontrivial();
    free_string_array(got, &arr);
  }
}

int main(int argc, char **argv)
{
  char b[600] = "", s[400];
  int it, i, l;
  vp_init(argc, argv);
  pats(b, 0, vp_thorough ? 4 : 3);
  for (it = 0; it < (vp_thorough ? 200000 : 20000); it++) {
    char *q = b, *t;
    int k = 1 + vp_below(30), stars = vp_below(5);
    t = s;
    for (i = 0; i < k; i++) {
      int r = vp_below(10), c;
      if (r == 0 && stars && (q == b || q[-1] != '*')) {
        stars--;
        *q++ = '*';
        if (vp_below(2)) { *q++ = '*'; l = vp_below(6); while (l--) *t++ = A[vp_below(3)]; }
        else { l = vp_below(4); while (l--) *t++ = "ab"[vp_below(2)]; }
      } else if (r == 1) { *q++ = '?'; *t++ = A[vp_below(6)]; }
      else if (r == 2) { q += sprintf(q, "%s", "[a-c]"); *t++ = "abc"[vp_below(3)]; }
      else if (r == 3) { int c1 = 0x21 + vp_below(90), c2 = 0x21 + vp_below(90); if (c1 == ']' || c2 == ']' || c1 == '-' || c2 == '-' || c1 == '[') { c1 = 'x'; c2 = 'd'; } q += sprintf(q, "[%c-%c]", c1, c2); *t++ = vp_below(8) ? c1 : 0x21 + vp_below(90); }
      else { c = A[vp_below(6)]; if (r == 4) { c = 128 + vp_below(127); } *q++ = c; *t++ = c; }
    }
    *q = *t = 0;
    setpat(b);
    if (it < 3) vp_sample();
    one(s);
    if (*s) {
      char o = s[l = vp_below(strlen(s))];
      s[l] = A[vp_below(6)];
      one(s);
      s[l] = o;
      s[strlen(s) - 1] = 0;
      one(s);
    }
    one("");
  }
  /* an unterminated class must not be read beyond */
  setpat("a[bc");
  setpat("[");
  lists();
  return vp_done();
}
