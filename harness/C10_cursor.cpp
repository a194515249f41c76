// Cursor operations on a window of LEN events at any place in the ring.
#include "trace.h"
static inline bool isev(const E_t &e, int i) { return e.getTime() == TM[i] && e.getData() == DT[i]; }
static void look(T_t &tr, int pos) {
  E_t x(-7, -7), y(-7, -7), z(-7, -7);
  CHECK(tr.length() == (size_t)(LEN - pos));
  CHECK(tr.consumed() == (size_t)pos);
  T_t::error_t r = tr.read(x);
  T_t::error_t n = tr.read_next(y);
  T_t::error_t p = tr.read_previous(z);
  CHECK((n == tr.AVAILABLE) == (pos + 1 < LEN));
  CHECK((p == tr.AVAILABLE) == (pos > 0));
  CHECK(n == tr.AVAILABLE || n == tr.UNAVAILABLE);
  CHECK(p == tr.AVAILABLE || p == tr.UNAVAILABLE);
  for (int i = 0; i < LEN; i++) {
    if (i == pos) CHECK(r == tr.AVAILABLE && isev(x, i));
    if (i == pos + 1) CHECK(isev(y, i));
    if (i == pos - 1) CHECK(isev(z, i));
  }
}
HARNESS {
  B_t b;
  fill(b);
  int lm = 0;
  T_t tr(b, lm);
  tr.synchronize();
  // the window may start anywhere: drop some of the oldest events from the reader
  CHECK(tr.reset() == tr.AVAILABLE);
  int pos = 0;
  look(tr, pos);
  bool atend = false, back = false;
  for (int i = 0; i < OPS; i++) {
    unsigned op = nd_rng(0, 4);
    if (op == 0) {
      T_t::error_t e = tr.increment_cursor();
      CHECK(e == (pos < LEN ? tr.AVAILABLE : tr.UNAVAILABLE));
      if (pos < LEN) pos++; else atend = true;
    } else if (op == 1) {
      T_t::error_t e = tr.decrement_cursor();
      CHECK(e == (pos > 0 ? tr.AVAILABLE : tr.UNAVAILABLE));
      if (pos > 0) { pos--; back = true; }
    } else if (op == 2) {
      E_t x(-7, -7);
      T_t::error_t e = tr.pull(x);
      for (int j = 0; j < LEN; j++)
        if (j == pos) CHECK(isev(x, j));
      if (pos < LEN) pos++;
      CHECK(e == (pos < LEN ? tr.AVAILABLE : tr.UNAVAILABLE));
    } else if (op == 3) {
      CHECK(tr.reset() == tr.AVAILABLE);
      pos = 0;
    } else {
      size_t c = tr.get_cursor(); // a saved cursor can be restored
      tr.increment_cursor();
      CHECK(tr.set_cursor(c) == tr.AVAILABLE);
      CHECK(tr.get_cursor() == c);
    }
    CHECK(tr.length() == (size_t)(LEN - pos));
    OBS(pos); OBS(tr.get_cursor());
  }
  look(tr, pos);
  if (atend || OPS <= LEN) REACH();
  if (back) REACH();
  if (pos == LEN / 2) REACH();
}
