// Reference definitions: intervals (P15).
#include "interval.hh"
namespace spec {
void assume(bool);
Bounds infty() { return Bounds(std::numeric_limits<double>::infinity(), false); }
using IV = std::vector<std::shared_ptr<Interval>>;
void ctor0(Interval &self) { self.lowerBound = Bounds(0, true); self.upperBound = Bounds(std::numeric_limits<double>::infinity(), false); }
void ctor1(Interval &self, int lower) { self.lowerBound = Bounds(lower, false); self.upperBound = Bounds(std::numeric_limits<double>::infinity(), false); }
void ctor2(Interval &self, int lower, int upper) { self.lowerBound = Bounds(lower, false); self.upperBound = Bounds(upper, false); }
void ctorB(Interval &self, Bounds lower, Bounds upper) { self.lowerBound = lower; self.upperBound = upper; }
bool contain(Interval &self, double v) {
  const bool lo = self.lowerBound.first < v || (self.lowerBound.second && self.lowerBound.first == v);
  const bool up = v < self.upperBound.first || (self.upperBound.second && self.upperBound.first == v);
  return lo && up;
}
// t in both: the larger lower bound (open wins a tie), the smaller upper bound (open wins a tie)
Interval meet(const Interval &left, const Interval &right) {
  Interval r;
  if (left.lowerBound.first > right.lowerBound.first) r.lowerBound = left.lowerBound;
  else if (left.lowerBound.first < right.lowerBound.first) r.lowerBound = right.lowerBound;
  else r.lowerBound = Bounds(left.lowerBound.first, left.lowerBound.second && right.lowerBound.second);
  if (left.upperBound.first < right.upperBound.first) r.upperBound = left.upperBound;
  else if (left.upperBound.first > right.upperBound.first) r.upperBound = right.upperBound;
  else r.upperBound = Bounds(left.upperBound.first, left.upperBound.second && right.upperBound.second);
  return r;
}
// an interval is dropped when its bounds cross; an empty one whose open bounds meet at one point adds
// nothing to the union and is kept
bool isEmpty(const Interval &i) { return i.upperBound < i.lowerBound; }
void land1(IV &left, const Interval &right) {
  IV kept;
  // the intervals of the operand may belong to other sets as well
  for (std::size_t k = 0; k < left.size(); k++) left[k] = std::make_shared<Interval>(meet(*left[k], right));
  for (std::size_t k = 0; k < left.size(); k++)
    if (!isEmpty(*left[k])) kept.push_back(left[k]);
  left = kept;
}
// every pair of an interval of each side
void land2(IV &left, const IV &right) {
  IV all;
  for (std::size_t b = 0; b < right.size(); b++) {
    IV part;
    for (std::size_t a = 0; a < left.size(); a++) part.push_back(std::make_shared<Interval>(*left[a]));
    land1(part, *right[b]);
    for (std::size_t a = 0; a < part.size(); a++) all.push_back(part[a]);
  }
  left = all;
}
// I+ as I, 2I, ..., (m-1)I, [m lower, inf): from m on consecutive multiples leave no gap
void plusUpTo(Interval &self, IV &out, int m) {
  if (std::isinf(self.upperBound.first)) {
    out = {std::make_shared<Interval>(self.lowerBound, self.upperBound)};
    return;
  }
  out.clear();
  for (int i = 1; i < m; i++)
    out.push_back(std::make_shared<Interval>(Bounds(self.lowerBound.first * i, self.lowerBound.second),
                                             Bounds(self.upperBound.first * i, self.upperBound.second)));
  out.push_back(std::make_shared<Interval>(Bounds(self.lowerBound.first * m, self.lowerBound.second), infty()));
}
bool touching(Interval &self) { // two open ends that meet leave the point between them out
  const double w = self.upperBound.first - self.lowerBound.first;
  return !self.lowerBound.second && !self.upperBound.second && std::ceil(self.lowerBound.first / w) * w == self.lowerBound.first;
}
void plus1(Interval &self, IV &out) {
  assume(self.lowerBound.first < self.upperBound.first && !touching(self));
  plusUpTo(self, out, std::ceil(self.lowerBound.first / (self.upperBound.first - self.lowerBound.first)));
}
void plusOpen(Interval &self, IV &out) {
  assume(self.lowerBound.first > 0 && self.lowerBound.first < self.upperBound.first && touching(self));
  plusUpTo(self, out, std::ceil(self.lowerBound.first / (self.upperBound.first - self.lowerBound.first)) + 1);
}
// the union of I+ over the non-empty selections I of the set: one sum per selection
void plusSets(IV &intervals) {
  if (intervals.size() >= 32) throw "too large expression";
  std::vector<IV> each;
  each.resize(intervals.size());
  for (std::size_t i = 0; i < intervals.size(); i++) {
    if (std::isinf(intervals[i]->upperBound.first)) each[i] = {intervals[i]};
    else intervals[i]->plus(each[i]);
  }
  if (each.size() == 1) { intervals = each[0]; return; }
  IV ansIntervals;
  const uint32_t selections = 1 << intervals.size();
  for (uint32_t i = 1; i < selections; i++) {
    std::vector<const IV *> selected;
    for (std::size_t j = 0; j < intervals.size(); j++)
      if ((1 << j) & i) selected.push_back(&each[j]);
    IV tmpIntervals = {std::make_shared<Interval>(Bounds{0, true}, Bounds{0, true})};
    for (const auto &intervals : selected) tmpIntervals += *intervals;
    ansIntervals.insert(ansIntervals.end(), tmpIntervals.begin(), tmpIntervals.end());
  }
  intervals = ansIntervals;
}
Interval sum(Interval left, const Interval &right) {
  Interval r;
  r.lowerBound = Bounds(left.lowerBound.first + right.lowerBound.first, left.lowerBound.second && right.lowerBound.second);
  r.upperBound = Bounds(left.upperBound.first + right.upperBound.first, left.upperBound.second && right.upperBound.second);
  return r;
}
void addAssign(IV &left, const IV &right) {
  IV ans;
  for (const auto &a : left)
    for (const auto &b : right)
      ans.push_back(std::make_shared<Interval>(sum(*a, *b)));
  left = ans;
}
std::ostream &print(std::ostream &stream, const Interval &interval) {
  stream << '(' << interval.lowerBound << ',' << interval.upperBound << ')';
  return stream;
}
} // namespace spec
