// Reference definitions: difference bound matrices (P02).
#include "zone.hh"
namespace spec {
void assume(bool);   // precondition of a reference definition
Bounds plus(const Bounds a, const Bounds b) { Bounds r; r.first = a.first + b.first; r.second = a.second && b.second; return r; }
Bounds minusD(const Bounds &a, const Bounds &b) { Bounds r; r.first = a.first - b.first; r.second = a.second && b.second; return r; }
void plusAssign(Bounds &a, const Bounds b) { Bounds r; r.first = a.first + b.first; r.second = a.second && b.second; a = r; }
const Bounds infty() { return Bounds(std::numeric_limits<double>::infinity(), false); }

std::size_t getNumOfVar(const Zone &self) { return self.value.cols() - 1; }

// all pairs through x
void close1(Zone &self, ClockVariables x) {
  const int n = self.value.rows();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      self.value(i, j) = std::min(self.value(i, j), plus(self.value(x, j), self.value(i, x)));
}
void close1Rows(Zone &self, ClockVariables x) {
  for (int i = 0; i < self.value.rows(); i++)
    self.value.row(i) = self.value.row(i).array().min(self.value.row(x).array() + self.value(i, x));
}
void tighten(Zone &self, ClockVariables x, ClockVariables y, Bounds c) {
  const ClockVariables u = x + 1, v = y + 1;
  if (c < self.value(u, v)) self.value(u, v) = c;
  close1Rows(self, u);
  close1Rows(self, v);
}
// x := 0: x is the constant, so row and column of x are those of the constant
void reset(Zone &self, ClockVariables x) {
  const int u = x + 1, n = self.value.rows();
  self.value(0, u) = Bounds(0, true);
  self.value(u, 0) = Bounds(0, true);
  for (int i = 1; i < n; i++) self.value(i, u) = self.value(i, 0);
  for (int j = 1; j < n; j++) self.value(u, j) = self.value(0, j);
}
// a positive amount of time passes: no upper bound on any clock, every lower bound strict
void elapse(Zone &self) {
  const int n = self.value.rows();
  for (int i = 0; i < n; i++) self.value(i, 0) = infty();
  for (int j = 0; j < n; j++) self.value(0, j).second = false;
}
void canonize(Zone &self) {
  for (int k = 0; k < self.value.cols(); k++) close1Rows(self, k);
}
bool isSatisfiable(Zone &self) {
  canonize(self);
  return !((self.value + self.value.transpose()).minCoeff() < Bounds(0.0, true));
}
void abstractize(Zone &self) {
  const int n = self.value.rows();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (!(self.value(i, j) < self.M)) self.value(i, j) = infty();
      // a lower bound beyond the largest constant says no more than "more than the largest constant"
      else if (self.value(i, j) < Bounds(-self.M.first, false)) self.value(i, j) = Bounds(-self.M.first, false);
}
void makeUnsat(Zone &self) { self.value(0, 0) = Bounds(-std::numeric_limits<double>::infinity(), false); }
bool equal(const Zone &self, Zone z) {
  // the (0,0) entry carries no constraint
  z.value(0, 0) = self.value(0, 0);
  return z.value == self.value;
}
void intersectionAssign(Zone &self, Zone z) {
  const int n = self.value.rows();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      self.value(i, j) = std::min(self.value(i, j), z.value(i, j));
}
Zone zero(int size) {
  assume(size > 0);
  Zone z;
  z.value.resize(size, size);
  z.value.fill(Bounds(0, true));
  return z;
}
Zone universal(int size) {
  assume(size >= 0);
  Zone z;
  z.value.resize(size + 1, size + 1);
  z.value.fill(infty());
  z.value(0, 0) = Bounds(0, true);
  return z;
}
// the strongest guard: for every clock its lower bound unless it is x >= 0, its upper bound unless it is at least M
std::vector<Constraint> makeGuard(Zone &self) {
  canonize(self);
  abstractize(self);
  std::vector<Constraint> guard;
  const int n = self.value.cols() - 1;
  for (int i = 0; i < n; ++i) {
    const Bounds lo = self.value(0, i + 1);     // -x <= lo.first
    if (lo < Bounds(0, true)) {
      Constraint c;
      c.x = i; c.c = -lo.first;
      c.odr = lo.second ? Constraint::Order::ge : Constraint::Order::gt;
      guard.push_back(c);
    }
    const Bounds up = self.value(i + 1, 0);
    if (up < self.M) {
      Constraint c;
      c.x = i; c.c = up.first;
      c.odr = up.second ? Constraint::Order::le : Constraint::Order::lt;
      guard.push_back(c);
    }
  }
  return guard;
}
// the sub-zone over the clocks from..to (and the constant)
void cutVars(Zone &self, std::shared_ptr<Zone> &out, std::size_t from, std::size_t to) {
  out = std::make_shared<Zone>();
  const std::size_t n = to - from + 1;
  out->value.resize(n + 1, n + 1);
  for (std::size_t i = 0; i < n + 1; i++)
    for (std::size_t j = 0; j < n + 1; j++) {
      if (i == 0 && j == 0) out->value(i, j) = Bounds(0, true);
      else if (i == 0) out->value(i, j) = self.value(0, from + j);
      else if (j == 0) out->value(i, j) = self.value(from + i, 0);
      else out->value(i, j) = self.value(from + i, from + j);
    }
  out->M = self.M;
}
} // namespace spec
