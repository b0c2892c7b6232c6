// Reference definitions: guards (P01).
#include "constraint.hh"
namespace spec {
bool satisfy(const Constraint &self, double d) {
  if (self.odr == Constraint::Order::lt) return d < self.c;
  if (self.odr == Constraint::Order::le) return d <= self.c;
  if (self.odr == Constraint::Order::gt) return d > self.c;
  return d >= self.c;
}
// where a valuation lies relative to the guard: inside, above it (upper guards) or below it (lower guards)
::Order order(const Constraint &self, Constraint::Interpretation val) {
  const double v = val.at(self.x);
  switch (self.odr) {
  case Constraint::Order::lt: return v < self.c ? ::Order::EQ : ::Order::GT;
  case Constraint::Order::le: return v <= self.c ? ::Order::EQ : ::Order::GT;
  case Constraint::Order::gt: return v > self.c ? ::Order::EQ : ::Order::LT;
  case Constraint::Order::ge: return v >= self.c ? ::Order::EQ : ::Order::LT;
  }
  return ::Order::LT;
}
bool isEq(Order o) { return o == Order::EQ; }
struct CM { ClockVariables x; };
Constraint mkLt(CM &self, int c) { Constraint r; r.x = self.x; r.odr = Constraint::Order::lt; r.c = c; return r; }
Constraint mkLe(CM &self, int c) { Constraint r; r.x = self.x; r.odr = Constraint::Order::le; r.c = c; return r; }
Constraint mkGt(CM &self, int c) { Constraint r; r.x = self.x; r.odr = Constraint::Order::gt; r.c = c; return r; }
Constraint mkGe(CM &self, int c) { Constraint r; r.x = self.x; r.odr = Constraint::Order::ge; r.c = c; return r; }
// only upper guards stay, in order
void widen(std::vector<Constraint> &guard) {
  std::vector<Constraint> kept;
  for (std::size_t i = 0; i < guard.size(); i++)
    if (guard[i].odr == Constraint::Order::lt || guard[i].odr == Constraint::Order::le) kept.push_back(guard[i]);
  guard = kept;
}
std::ostream &printOrder(std::ostream &os, const Constraint::Order &odr) {
  if (odr == Constraint::Order::lt) os << "<";
  else if (odr == Constraint::Order::le) os << "<=";
  else if (odr == Constraint::Order::ge) os << ">=";
  else os << ">";
  return os;
}
std::ostream &printConstraint(std::ostream &os, const Constraint &p) {
  os << "x" << int(p.x) << " ";
  switch (p.odr) {
  case Constraint::Order::lt: os << "<"; break;
  case Constraint::Order::le: os << "<="; break;
  case Constraint::Order::ge: os << ">="; break;
  case Constraint::Order::gt: os << ">"; break;
  }
  os << " " << p.c;
  return os;
}
} // namespace spec
