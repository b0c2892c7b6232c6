// Reference definitions: the zone of one match attempt (P04).
// Clock 0 is the constant, clock 1 the begin t, newestClock the end t'; cell (x, y) bounds x - y.
// With at most two clocks the six cells are kept as three (lower, upper) pairs: t, t', t' - t.
#include "intermediate_zone.hh"
namespace spec {
Bounds infinite() { return Bounds(std::numeric_limits<double>::infinity(), false); }
Bounds plus(const Bounds a, const Bounds b) { Bounds r; r.first = a.first + b.first; r.second = a.second && b.second; return r; }

void izFromInterval(IntermediateZone &self, const Interval &interval) {
  Interval begin = interval;
  begin.lowerBound.first = -begin.lowerBound.first;
  self.intervals = {begin};
  self.useInterval = true;
  self.newestClock = 1;
}
void izFromZone(IntermediateZone &self, Zone zone, std::size_t newest) {
  self.value = zone.value; self.M = zone.M;
  self.useInterval = false;
  self.isAllocated.resize(self.value.cols(), false);
  if (newest) {
    self.newestClock = newest;
    for (ClockVariables x = newest + 1; x < self.value.cols(); x++) self.deallocate(x);
  } else self.newestClock = self.value.cols() - 1;
  self.isAllocated[0] = true;
  self.isAllocated[1] = true;
  self.isAllocated[self.newestClock] = true;
}
// nothing is known about x
void deallocate(IntermediateZone &self, const ClockVariables x) {
  for (int i = 0; i < self.value.rows(); i++) self.value(i, x) = infinite();
  for (int j = 0; j < self.value.cols(); j++) self.value(x, j) = infinite();
  self.value(x, x) = Bounds(0, true);
}
void toAns(const IntermediateZone &self, Zone &ans) {
  ans = Zone::zero(3);
  if (self.useInterval) {
    if (self.intervals.size() >= 3) {
      ans.value(0, 1) = self.intervals[0].lowerBound; ans.value(1, 0) = self.intervals[0].upperBound;
      ans.value(0, 2) = self.intervals[1].lowerBound; ans.value(2, 0) = self.intervals[1].upperBound;
      ans.value(1, 2) = self.intervals[2].lowerBound; ans.value(2, 1) = self.intervals[2].upperBound;
    }
  } else {
    const ClockVariables e = self.newestClock;
    ans.value(0, 1) = self.value(0, 1); ans.value(1, 0) = self.value(1, 0);
    ans.value(0, 2) = self.value(0, e); ans.value(2, 0) = self.value(e, 0);
    ans.value(1, 2) = self.value(1, e); ans.value(2, 1) = self.value(e, 1);
  }
}
// a new end t' (or reset time): bounds for it, not before the newest one, at most one beginning
ClockVariables alloc(IntermediateZone &self, const std::pair<double, bool> &upper, const std::pair<double, bool> &lower) {
  ClockVariables fresh;
  if (self.useInterval && self.intervals.size() == 1) {
    const Interval t = self.intervals[0];
    Bounds between = plus(t.upperBound, lower);                 // t - t'
    if (Bounds(0, true) < between) between = Bounds(0, true);
    Interval end, duration;
    end.lowerBound = lower; end.upperBound = upper;
    duration.lowerBound = between;
    duration.upperBound = plus(upper, t.lowerBound);            // t' - t
    self.intervals.push_back(end);
    self.intervals.push_back(duration);
    self.newestClock = 2;
    return 2;
  }
  if (self.useInterval) {
    self.useInterval = false;
    self.isAllocated.resize(4, true);
    self.value.resize(4, 4);
    self.value.fill(infinite());
    for (int i = 0; i < 4; i++) self.value(i, i) = Bounds(0, true);
    self.value(1, 0) = self.intervals[0].upperBound; self.value(0, 1) = self.intervals[0].lowerBound;
    self.value(2, 0) = self.intervals[1].upperBound; self.value(0, 2) = self.intervals[1].lowerBound;
    self.value(2, 1) = self.intervals[2].upperBound; self.value(1, 2) = self.intervals[2].lowerBound;
    self.value(2, 3) = Bounds(0, true);
    self.value(3, 0) = upper; self.value(0, 3) = lower;
    self.intervals.clear();
    fresh = 3;
  } else {
    const auto unused = std::find(self.isAllocated.begin(), self.isAllocated.end(), false);
    if (unused != self.isAllocated.end()) fresh = unused - self.isAllocated.begin();
    else {
      self.value.conservativeResize(self.value.cols() + 1, self.value.cols() + 1);
      fresh = self.value.cols() - 1;
      self.isAllocated.resize(self.value.cols());
      self.value.row(fresh).fill(infinite());
      self.value.col(fresh).fill(infinite());
      self.value(fresh, fresh) = Bounds(0, true);
    }
    self.isAllocated[fresh] = true;
    self.value(fresh, 0) = upper;
    self.value(0, fresh) = lower;
    self.value(fresh, self.newestClock) = infinite();
    self.value(self.newestClock, fresh) = Bounds(0, true);
  }
  for (int i = 0; i < self.value.rows(); i++)
    self.value(i, fresh) = std::min(self.value(i, fresh), (self.value.row(i) + self.value.col(fresh).transpose()).minCoeff());
  for (int x = 0; x < self.value.rows(); x++)
    for (int j = 0; j < self.value.cols(); j++)
      self.value(fresh, j) = std::min(self.value(fresh, j), plus(self.value(fresh, x), self.value(x, j)));
  self.newestClock = fresh;
  return fresh;
}
// only the begin, the end and the clocks the configuration still refers to are kept
void update(IntermediateZone &self, const std::vector<boost::variant<double, ClockVariables>> &resetTime) {
  if (self.useInterval) return;
  std::fill(self.isAllocated.begin(), self.isAllocated.end(), false);
  self.isAllocated[0] = true;
  self.isAllocated[1] = true;
  self.isAllocated[self.newestClock] = true;
  for (auto r : resetTime) {
    const ClockVariables *clock = boost::get<ClockVariables>(&r);
    if (clock) self.isAllocated[*clock] = true;
  }
  for (ClockVariables x = 1; x < self.value.cols(); x++)
    if (!self.isAllocated[x]) self.deallocate(x);
}
// x - y <= c, and the cells that c may tighten
void tightenCell(IntermediateZone &self, const ClockVariables x, const ClockVariables y, Bounds c) {
  if (!self.useInterval) {
    self.value(x, y) = std::min(self.value(x, y), c);
    if (self.value(x, y) == c && self.newestClock != 1) { self.close1(x); self.close1(y); }
    return;
  }
  Bounds t0, t1, e0, e1, d0, d1; // cells (0,1) (1,0) (0,2) (2,0) (1,2) (2,1)
  const bool two = self.intervals.size() > 1;
  if (x == 0 && y == 1) {
    t0 = std::min(self.intervals[0].lowerBound, c);
    self.intervals[0].lowerBound = t0;
    if (two) {
      self.intervals[1].lowerBound = std::min(self.intervals[1].lowerBound, plus(t0, self.intervals[2].lowerBound));
      self.intervals[2].upperBound = std::min(self.intervals[2].upperBound, plus(self.intervals[1].upperBound, t0));
    }
  } else if (x == 1 && y == 0) {
    t1 = std::min(self.intervals[0].upperBound, c);
    self.intervals[0].upperBound = t1;
    if (two) {
      self.intervals[1].upperBound = std::min(self.intervals[1].upperBound, plus(self.intervals[2].upperBound, t1));
      self.intervals[2].lowerBound = std::min(self.intervals[2].lowerBound, plus(t1, self.intervals[1].lowerBound));
    }
  } else if (x == 0 && y == 2) {
    e0 = std::min(self.intervals[1].lowerBound, c);
    self.intervals[1].lowerBound = e0;
    self.intervals[0].lowerBound = std::min(self.intervals[0].lowerBound, plus(e0, self.intervals[2].upperBound));
    self.intervals[2].lowerBound = std::min(self.intervals[2].lowerBound, plus(e0, self.intervals[0].upperBound));
  } else if (x == 2 && y == 0) {
    e1 = std::min(self.intervals[1].upperBound, c);
    self.intervals[1].upperBound = e1;
    self.intervals[0].upperBound = std::min(self.intervals[0].upperBound, plus(e1, self.intervals[2].lowerBound));
    self.intervals[2].upperBound = std::min(self.intervals[2].upperBound, plus(e1, self.intervals[0].lowerBound));
  } else if (x == 1 && y == 2) {
    d0 = std::min(self.intervals[2].lowerBound, c);
    self.intervals[2].lowerBound = d0;
    self.intervals[0].upperBound = std::min(self.intervals[0].upperBound, plus(self.intervals[1].upperBound, d0));
    self.intervals[1].lowerBound = std::min(self.intervals[1].lowerBound, plus(d0, self.intervals[0].lowerBound));
  } else if (x == 2 && y == 1) {
    d1 = std::min(self.intervals[2].upperBound, c);
    self.intervals[2].upperBound = d1;
    self.intervals[1].upperBound = std::min(self.intervals[1].upperBound, plus(d1, self.intervals[0].upperBound));
    self.intervals[0].lowerBound = std::min(self.intervals[0].lowerBound, plus(self.intervals[1].lowerBound, d1));
  }
}
// x - reset (order) c
void tightenClock(IntermediateZone &self, const ClockVariables x, const Constraint &c, const ClockVariables reset) {
  const bool closed = c.odr == Constraint::Order::le || c.odr == Constraint::Order::ge;
  if (c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le) self.tighten(x, reset, Bounds(c.c, closed));
  else self.tighten(reset, x, Bounds(-c.c, closed));
}
// x - t (order) c for the absolute reset time t
void tightenAbsolute(IntermediateZone &self, const ClockVariables x, const Constraint &c, const double t) {
  const bool closed = c.odr == Constraint::Order::le || c.odr == Constraint::Order::ge;
  if (c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le) self.tighten(x, 0, Bounds(t + c.c, closed));
  else self.tighten(0, x, Bounds(-(t + c.c), closed));
}
void tightenEnd(IntermediateZone &self, const std::vector<Constraint> &constraints,
                const std::vector<boost::variant<double, ClockVariables>> &resetTime) {
  for (const Constraint &g : constraints) {
    const double *time = boost::get<double>(&resetTime[g.x]);
    const ClockVariables *clock = boost::get<ClockVariables>(&resetTime[g.x]);
    if (time) self.tighten(self.newestClock, g, *time);
    else self.tighten(self.newestClock, g, *clock);
  }
}
// the guards are evaluated at the absolute time t
void tightenAt(IntermediateZone &self, const std::vector<Constraint> &constraints,
               const std::vector<boost::variant<double, ClockVariables>> &resetTime, const double t) {
  for (const Constraint &g : constraints) {
    const double *time = boost::get<double>(&resetTime[g.x]);
    const ClockVariables *clock = boost::get<ClockVariables>(&resetTime[g.x]);
    if (time) {
      if (!g.satisfy(t - *time)) {
        if (self.useInterval) self.intervals[0].lowerBound = Bounds(-std::numeric_limits<double>::infinity(), false);
        else self.makeUnsat();
      }
    } else {
      // t - clock (order) c
      const bool closed = g.odr == Constraint::Order::le || g.odr == Constraint::Order::ge;
      if (g.odr == Constraint::Order::lt || g.odr == Constraint::Order::le) self.tighten(0, *clock, Bounds(g.c - t, closed));
      else self.tighten(*clock, 0, Bounds(t - g.c, closed));
    }
  }
}
bool isSatisfiableCanonized(IntermediateZone &self) {
  if (self.useInterval) {
    for (std::size_t i = 0; i < self.intervals.size(); i++)
      if (plus(self.intervals[i].upperBound, self.intervals[i].lowerBound) < Bounds(0.0, true)) return false;
    return true;
  }
  return !((self.value + self.value.transpose()).minCoeff() < Bounds(0.0, true));
}
} // namespace spec
