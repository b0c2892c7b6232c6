#include "intermediate_tre.hh"
#include <cmath>
#include <algorithm>
void concat2(TimedAutomaton &left, const TimedAutomaton &right);
void renameToEpsilonTransitions(TimedAutomaton &out);
namespace spec {
using AtomP = std::shared_ptr<AtomicTRE>;
using Conj = std::list<AtomP>;
using Chars = std::vector<Alphabet>;
// the letter of a constant decision; 0: only the empty signal, -1: not known
int onlyLetter(const Chars &c) {
  if (c.size() == 1) return c[0];
  if (c.size() == 2 && c[0] == 0) return c[1];
  return -1;
}
bool mayBeEmpty(const Chars &c) { return !c.empty() && c[0] == 0; }
// the constant signals a concatenation can be: those both parts can be, or one part when the other may be empty
void decisionConcat(SyntacticDecision &self, std::shared_ptr<SyntacticDecision> in) {
  const Chars l = self.chars, r = in->chars;
  Chars both(l.size() + r.size());
  if (mayBeEmpty(l) && mayBeEmpty(r))
    both.resize(std::set_union(l.begin(), l.end(), r.begin(), r.end(), both.begin()) - both.begin());
  else if (mayBeEmpty(l)) both = r;
  else if (mayBeEmpty(r)) both = l;
  else
    both.resize(std::set_intersection(l.begin(), l.end(), r.begin(), r.end(), both.begin()) - both.begin());
  const int x = onlyLetter(l), y = onlyLetter(r);
  const bool constant = self.tag == SyntacticDecision::Decision::Constant && in->tag == SyntacticDecision::Decision::Constant &&
                        x >= 0 && y >= 0 && (x == 0 || y == 0 || x == y);
  self.tag = constant ? SyntacticDecision::Decision::Constant : SyntacticDecision::Decision::Mixed;
  self.chars = both;
}
bool decisionMixed(const SyntacticDecision &self) { return self.tag == SyntacticDecision::Decision::Mixed && !self.chars.empty(); }
bool decisionConstant(SyntacticDecision &self, char &c) {
  if (self.chars.size() != 1) return false;
  c = self.chars[0];
  return true;
}

// an expression as a disjunction of conjunctions of atoms
void assume(bool);
void dnf(DNFTRE &self, const std::shared_ptr<const TRE> e) {
  switch (e->tag) {
  case TRE::op::atom: self.list = {Conj{std::make_shared<AtomicTRE>(e->c)}}; break;
  case TRE::op::epsilon: self.list = {Conj{std::make_shared<AtomicTRE>()}}; break;
  case TRE::op::plus: self.list = {Conj{std::make_shared<AtomicTRE>(std::make_shared<DNFTRE>(e->regExpr))}}; break;
  case TRE::op::concat: {
    std::shared_ptr<DNFTRE> l = std::make_shared<DNFTRE>(e->regExprPair.first);
    std::shared_ptr<DNFTRE> r = std::make_shared<DNFTRE>(e->regExprPair.second);
    for (const Conj &p : l->list)
      for (const Conj &q : r->list) {
        Conj c;
        for (const AtomP &x : p)
          for (const AtomP &y : q) c.push_back(std::make_shared<AtomicTRE>(x, y));
        if (!c.empty()) self.list.push_back(c);
      }
    break;
  }
  case TRE::op::disjunction: {
    std::shared_ptr<DNFTRE> l = std::make_shared<DNFTRE>(e->regExprPair.first);
    std::shared_ptr<DNFTRE> r = std::make_shared<DNFTRE>(e->regExprPair.second);
    self.list = l->list;
    self.list.insert(self.list.end(), r->list.begin(), r->list.end());
    break;
  }
  case TRE::op::conjunction: {
    std::shared_ptr<DNFTRE> l = std::make_shared<DNFTRE>(e->regExprPair.first);
    std::shared_ptr<DNFTRE> r = std::make_shared<DNFTRE>(e->regExprPair.second);
    for (const Conj &p : l->list)
      for (const Conj &q : r->list) {
        Conj c = p;
        c.insert(c.end(), q.begin(), q.end());
        if (!c.empty()) self.list.push_back(c);
      }
    break;
  }
  case TRE::op::within: {
    DNFTRE sub(e->regExprWithin.first);
    self.list = sub.list;
    for (Conj &c : self.list)
      for (AtomP &x : c) x = std::make_shared<AtomicTRE>(x, e->regExprWithin.second);
    break;
  }
  }
}
// the automaton of a signal that keeps one value for a time in one of the intervals, etc.
void signalAtomTA(const AtomicTRE &self, TimedAutomaton &out) {
  switch (self.tag) {
  case AtomicTRE::op::singleton: {
    if (self.singleton->intervals.empty()) {
      out.states.clear();
      out.initialStates.clear();
      return;
    }
    out.states.resize(2);
    for (auto &s : out.states) s = std::make_shared<TAState>();
    out.initialStates = {out.states[0]};
    out.states[0]->isMatch = false;
    out.states[1]->isMatch = true;
    int largest = -1;
    out.states[0]->next[self.singleton->c];
    for (const auto &i : self.singleton->intervals) {
      std::vector<Constraint> guard;
      if (!(i->lowerBound.first == 0 && i->lowerBound.second)) {
        if (i->lowerBound.second) guard.push_back(TimedAutomaton::X(0) >= i->lowerBound.first);
        else guard.push_back(TimedAutomaton::X(0) > i->lowerBound.first);
        largest = std::max(largest, int(i->lowerBound.first));
      }
      if (!std::isinf(i->upperBound.first)) {
        if (i->upperBound.second) guard.push_back(TimedAutomaton::X(0) <= i->upperBound.first);
        else guard.push_back(TimedAutomaton::X(0) < i->upperBound.first);
        largest = std::max(largest, int(i->upperBound.first));
      }
      out.states[0]->next[self.singleton->c].push_back({out.states[1].get(), {}, guard});
    }
    if (largest == -1) out.maxConstraints.clear();
    else out.maxConstraints.push_back(largest);
    break;
  }
  case AtomicTRE::op::epsilon:
    out.states.resize(1);
    out.states[0] = std::make_shared<TAState>();
    out.initialStates = {out.states[0]};
    out.states[0]->isMatch = true;
    out.maxConstraints.clear();
    break;
  case AtomicTRE::op::plus:
    self.expr->toSignalTA(out);
    for (auto &s : out.states)
      for (auto &edges : s->next) {
        std::vector<TATransition> again;
        for (const TATransition &e : edges.second) {
          if (!e.target || !e.target->isMatch) continue;
          for (const auto &q : out.initialStates) {
            TATransition t = e;
            t.target = q.get();
            for (std::size_t x = 0; x < out.clockSize(); x++) t.resetVars.push_back(x);
            again.push_back(t);
          }
        }
        edges.second.insert(edges.second.end(), again.begin(), again.end());
      }
    break;
  case AtomicTRE::op::concat: {
    auto it = self.list.begin();
    (*it)->toSignalTA(out);
    for (++it; it != self.list.end(); ++it) {
      TimedAutomaton next;
      (*it)->toSignalTA(next);
      concat2(out, next);
    }
    break;
  }
  case AtomicTRE::op::within: {
    self.within.first->toSignalTA(out);
    const Interval &I = *self.within.second;
    const ClockVariables x = out.clockSize();
    std::shared_ptr<TAState> accepting = std::make_shared<TAState>();
    accepting->isMatch = true;
    for (auto s : out.states)
      for (auto &edges : s->next) {
        std::vector<TATransition> more;
        for (const TATransition &e : edges.second) {
          if (!e.target || !e.target->isMatch) continue;
          TATransition t = e;
          t.target = accepting.get();
          if (!std::isinf(I.upperBound.first)) {
            if (I.upperBound.second) t.guard.push_back(TimedAutomaton::X(x) <= I.upperBound.first);
            else t.guard.push_back(TimedAutomaton::X(x) < I.upperBound.first);
          }
          if (I.lowerBound.second) t.guard.push_back(TimedAutomaton::X(x) >= I.lowerBound.first);
          else t.guard.push_back(TimedAutomaton::X(x) > I.lowerBound.first);
          more.push_back(t);
        }
        edges.second.insert(edges.second.end(), more.begin(), more.end());
      }
    for (auto s : out.states) s->isMatch = false;
    out.states.push_back(accepting);
    out.maxConstraints.push_back(std::max(I.lowerBound.first, std::isinf(I.upperBound.first) ? 0.0 : I.upperBound.first));
    break;
  }
  }
}
// a disjunct is the product of its atoms; disjuncts stand side by side and share clocks
void signalTA(const DNFTRE &self, TimedAutomaton &out) {
  for (const Conj &c : self.list) {
    auto it = c.begin();
    TimedAutomaton all;
    (*it)->toSignalTA(all);
    for (++it; it != c.end(); ++it) {
      TimedAutomaton one, product;
      (*it)->toSignalTA(one);
      intersectionSignalTA(all, one, product);
      all = product;
    }
    out.states.insert(out.states.end(), all.states.begin(), all.states.end());
    out.initialStates.insert(out.initialStates.end(), all.initialStates.begin(), all.initialStates.end());
    const std::size_t n = std::max(out.maxConstraints.size(), all.maxConstraints.size());
    out.maxConstraints.resize(n);
    all.maxConstraints.resize(n);
    for (std::size_t i = 0; i < n; ++i) out.maxConstraints[i] = std::max(out.maxConstraints[i], all.maxConstraints[i]);
  }
}
void signalTranslation(std::shared_ptr<const TRE> e, TimedAutomaton &out) {
  DNFTRE d(e);
  d.toNormalForm();
  d.toSignalTA(out);
  renameToEpsilonTransitions(out);
}
// ---- building atoms
void atomEpsilon(AtomicTRE &self) { self.tag = AtomicTRE::op::epsilon; }
void atomLetter(AtomicTRE &self, const Alphabet c) {
  self.tag = AtomicTRE::op::singleton;
  self.singleton = std::make_shared<SingletonTRE>(c);
}
void atomSingleton(AtomicTRE &self, const std::shared_ptr<SingletonTRE> s) {
  self.tag = AtomicTRE::op::singleton;
  self.singleton = s;
}
void atomThree(AtomicTRE &self, const Conj &left, const AtomP mid, const Conj &right) {
  self.tag = AtomicTRE::op::concat;
  self.list = left;
  self.list.push_back(mid);
  self.list.insert(self.list.end(), right.begin(), right.end());
}
// the same expression as the other
void become(AtomicTRE &self, const AtomicTRE &o) {
  self.tag = o.tag;
  switch (o.tag) {
  case AtomicTRE::op::singleton: self.singleton = o.singleton; break;
  case AtomicTRE::op::epsilon: break;
  case AtomicTRE::op::concat: self.list = o.list; break;
  case AtomicTRE::op::plus: self.expr = o.expr; break;
  case AtomicTRE::op::within: self.within = o.within; break;
  }
}
void atomConcat(AtomicTRE &self, const AtomP left, const AtomP right) {
  Conj parts;
  if (left->tag == AtomicTRE::op::concat) parts = left->list;
  else if (left->tag != AtomicTRE::op::epsilon) parts = {left};
  if (right->tag == AtomicTRE::op::concat) parts.insert(parts.end(), right->list.begin(), right->list.end());
  else if (right->tag != AtomicTRE::op::epsilon) parts.push_back(right);
  if (parts.empty()) self.tag = AtomicTRE::op::epsilon;
  else if (parts.size() == 1) become(self, *parts.front());
  else {
    self.tag = AtomicTRE::op::concat;
    self.list = parts;
  }
}
void atomPlus(AtomicTRE &self, const std::shared_ptr<DNFTRE> e) {
  self.tag = AtomicTRE::op::plus;
  self.expr = e;
}
void atomWithin(AtomicTRE &self, const AtomP e, const std::shared_ptr<Interval> interval) {
  if (e->tag == AtomicTRE::op::singleton) {
    self.tag = AtomicTRE::op::singleton;
    self.singleton = std::make_shared<SingletonTRE>(*e->singleton);
    land(self.singleton->intervals, *interval);
  } else {
    self.tag = AtomicTRE::op::within;
    self.within = {e, interval};
  }
}
void singletonCtor(SingletonTRE &self, Alphabet c, std::vector<std::shared_ptr<Interval>> intervals) {
  self.c = c;
  self.intervals = intervals;
}
// ---- expressions reduced to a single value
bool atomSNF(AtomicTRE &self, const char c) {
  switch (self.tag) {
  case AtomicTRE::op::singleton: return self.singleton->c == c;
  case AtomicTRE::op::epsilon: return false;
  case AtomicTRE::op::concat: {
    if (!std::all_of(self.list.begin(), self.list.end(), [&](AtomP x) { return x->makeSNF(c); })) return false;
    auto all = std::make_shared<SingletonTRE>(c, std::vector<std::shared_ptr<Interval>>{std::make_shared<Interval>(Bounds{0, true}, Bounds{0, true})});
    for (auto &x : self.list) all->intervals += x->singleton->intervals;
    self.tag = AtomicTRE::op::singleton;
    self.singleton = all;
    return true;
  }
  case AtomicTRE::op::plus: {
    if (!self.expr->makeSNF(c)) return false;
    auto one = std::make_shared<SingletonTRE>(*self.expr->list.front().front()->singleton);
    self.tag = AtomicTRE::op::singleton;
    self.singleton = one;
    plus(self.singleton->intervals);
    return true;
  }
  case AtomicTRE::op::within: {
    if (!self.within.first->makeSNF(c)) return false;
    auto one = std::make_shared<SingletonTRE>(*self.within.first->singleton);
    auto interval = self.within.second;
    self.tag = AtomicTRE::op::singleton;
    self.singleton = one;
    land(self.singleton->intervals, *interval);
    return true;
  }
  }
  return false;
}
bool dnfSNF(DNFTRE &self, const char c) {
  for (auto it = self.list.begin(); it != self.list.end();) {
    bool all = true;
    for (auto &x : *it) {
      all = x->makeSNF(c);
      if (!all) break;
    }
    if (all) ++it;
    else it = self.list.erase(it);
  }
  auto any = std::make_shared<SingletonTRE>(c, std::vector<std::shared_ptr<Interval>>{});
  for (const Conj &conj : self.list) {
    std::vector<std::shared_ptr<Interval>> common = {std::make_shared<Interval>()};
    for (const AtomP &x : conj) land(common, x->singleton->intervals);
    any->intervals.insert(any->intervals.end(), common.begin(), common.end());
  }
  self.list = {Conj{std::make_shared<AtomicTRE>(any)}};
  return true;
}
// ---- the normal form
using Kind = SyntacticDecision::Decision;
using KindOf = AtomicTRE::op;
void atomNormal(AtomicTRE &self) {
  switch (self.tag) {
  case KindOf::singleton: self.decision = std::make_shared<SyntacticDecision>(Kind::Constant, Chars{self.singleton->c}); break;
  case KindOf::epsilon: self.decision = std::make_shared<SyntacticDecision>(Kind::Constant, Chars{0}); break;
  case KindOf::concat: {
    self.decision = std::make_shared<SyntacticDecision>(Kind::Constant, Chars{0});
    for (AtomP x : self.list) {
      x->toNormalForm();
      self.decision->concat(x->decision);
    }
    // the empty signal is no part; neighbours of the same letter are one
    for (auto it = self.list.begin(); it != self.list.end();) {
      if (self.list.size() > 1 && (*it)->tag == KindOf::epsilon) it = self.list.erase(it);
      else if ((*it)->tag == KindOf::singleton && std::next(it) != self.list.end() && (*std::next(it))->tag == KindOf::singleton &&
               (*it)->singleton->c == (*std::next(it))->singleton->c) {
        auto one = std::make_shared<AtomicTRE>(std::make_shared<SingletonTRE>(*((*it)->singleton)));
        one->decision = (*it)->decision;
        one->singleton->intervals += (*std::next(it))->singleton->intervals;
        *it = one;
        self.list.erase(std::next(it));
      } else ++it;
    }
    if (self.list.size() == 1) {
      AtomP only = self.list.front();
      self.list.~list();
      self.tag = only->tag;
      switch (self.tag) {
      case KindOf::singleton: new (&self.singleton) std::shared_ptr<SingletonTRE>(only->singleton); break;
      case KindOf::epsilon: break;
      case KindOf::concat: new (&self.list) Conj(only->list); break;
      case KindOf::plus: new (&self.expr) std::shared_ptr<DNFTRE>(only->expr); break;
      case KindOf::within: new (&self.within) std::pair<AtomP, std::shared_ptr<Interval>>(only->within); break;
      }
    }
    if (self.tag == KindOf::concat) {
      auto it = std::find_if(self.list.begin(), self.list.end(), [](AtomP x) { return x->tag == KindOf::plus && x->expr->decision->isMixed(); });
      if (it != self.list.end()) {
        Conj before = {self.list.begin(), it}, after = {std::next(it), self.list.end()};
        auto parts = (*it)->expr;
        self.list.~list();
        self.tag = KindOf::plus;
        new (&self.expr) std::shared_ptr<DNFTRE>(parts);
        for (auto &conj : self.expr->list)
          for (auto &x : conj) x = std::make_shared<AtomicTRE>(before, x, after);
      }
    }
    break;
  }
  case KindOf::plus: {
    self.expr->toNormalForm();
    self.decision = std::make_shared<SyntacticDecision>(Kind::Mixed, self.expr->decision->chars);
    if (self.expr->decision->tag == Kind::Constant &&
        (self.decision->chars.size() == 1 || (self.decision->chars.size() == 2 && self.decision->chars[0] == 0)))
      self.decision->tag = Kind::Constant;
    if (self.decision->isMixed()) {
      if (self.expr->list.size() >= 32) throw "too large expression";
      std::shared_ptr<DNFTRE> all = std::make_shared<DNFTRE>();
      const uint32_t n = 1 << self.expr->list.size();
      self.expr->list.sort();
      std::vector<Conj> vec(self.expr->list.begin(), self.expr->list.end());
      for (uint32_t i = 1; i < n; i++) {
        std::vector<Conj> sub;
        for (std::size_t j = 0; j < vec.size(); j++)
          if ((1 << j) & i) sub.push_back(vec[j]);
        std::shared_ptr<DNFTRE> orders = std::make_shared<DNFTRE>();
        do {
          AtomP x = std::make_shared<AtomicTRE>();
          for (auto &conj : sub) x = std::make_shared<AtomicTRE>(x, std::make_shared<AtomicTRE>(std::make_shared<DNFTRE>(conj)));
          orders->list.push_back({x});
        } while (std::next_permutation(sub.begin(), sub.end()));
        orders->toNormalForm();
        all->list.push_back({std::make_shared<AtomicTRE>(orders)});
      }
      self.expr = all;
    }
    Alphabet c;
    if (self.decision->isConstant(c)) self.makeSNF(c);
    break;
  }
  case KindOf::within: {
    self.within.first->toNormalForm();
    self.decision = std::make_shared<SyntacticDecision>(self.within.first->decision->tag, self.within.first->decision->chars);
    switch (self.within.first->tag) {
    case KindOf::singleton: {
      // the part may also belong to other disjuncts
      auto one = std::make_shared<SingletonTRE>(*self.within.first->singleton);
      land(one->intervals, *(self.within.second));
      self.within.~pair<AtomP, std::shared_ptr<Interval>>();
      self.tag = KindOf::singleton;
      new (&self.singleton) std::shared_ptr<SingletonTRE>(one);
      break;
    }
    case KindOf::epsilon: {
      // the empty signal lasts no time
      const bool zero = self.within.second->contain(0);
      self.within.~pair<AtomP, std::shared_ptr<Interval>>();
      if (zero) self.tag = KindOf::epsilon;
      else {
        self.tag = KindOf::singleton;
        new (&self.singleton) std::shared_ptr<SingletonTRE>(std::make_shared<SingletonTRE>(0, std::vector<std::shared_ptr<Interval>>{}));
      }
      break;
    }
    case KindOf::plus:
      if (self.within.first->decision->isMixed()) {
        self.decision = self.within.first->decision;
        AtomP part = self.within.first;
        auto interval = self.within.second;
        self.within.~pair<AtomP, std::shared_ptr<Interval>>();
        self.tag = KindOf::plus;
        new (&self.expr) std::shared_ptr<DNFTRE>(part->expr);
        for (auto &conj : self.expr->list)
          for (auto &x : conj) x = std::make_shared<AtomicTRE>(x, interval);
      }
      break;
    default: break;
    }
    break;
  }
  }
}
void common(SyntacticDecision &d, const SyntacticDecision &e, const bool constant) {
  d.tag = constant ? Kind::Constant : Kind::Mixed;
  Chars both(d.chars.size());
  both.resize(std::set_intersection(d.chars.begin(), d.chars.end(), e.chars.begin(), e.chars.end(), both.begin()) - both.begin());
  d.chars = both;
}
void dnfNormal(DNFTRE &self) {
  for (auto &conj : self.list)
    for (auto &x : conj) x->toNormalForm();
  for (auto it = self.list.begin(); it != self.list.end();) {
    auto mixed = std::find_if(it->begin(), it->end(), [](AtomP x) { return x->tag == KindOf::plus && x->decision->isMixed(); });
    if (mixed == it->end()) { ++it; continue; }
    AtomP split = *mixed;
    Conj rest = {it->begin(), mixed};
    rest.insert(rest.end(), std::next(mixed), it->end());
    for (auto &part : split->expr->list) part.insert(part.end(), rest.begin(), rest.end());
    self.list.insert(self.list.end(), split->expr->list.begin(), split->expr->list.end());
    it = self.list.erase(it);
  }
  // a conjunction is constant if one of its parts is, a disjunction if all are
  std::vector<std::shared_ptr<SyntacticDecision>> ds;
  for (auto &conj : self.list) {
    auto x = conj.begin();
    ds.push_back(std::make_shared<SyntacticDecision>(*((*x)->decision)));
    for (x++; x != conj.end(); x++)
      common(*ds.back(), *(*x)->decision, ds.back()->tag == Kind::Constant || (*x)->decision->tag == Kind::Constant);
  }
  auto d = ds.begin();
  self.decision = std::make_shared<SyntacticDecision>(**d);
  for (d++; d != ds.end(); d++) common(*self.decision, **d, self.decision->tag == Kind::Constant && (*d)->tag == Kind::Constant);
}
// silent moves for changes that do not change the value
void silent(TimedAutomaton &out) {
  std::unordered_map<TAState *, std::shared_ptr<TAState>> accepting;
  std::unordered_map<const TAState *, Alphabet> value;
  const auto same = [&value](const TAState *s, const Alphabet c) {
    if (c == 0) return false;
    if (s->next.find(c) == s->next.end()) return value[s] == c;
    value[s] = c;
    return true;
  };
  for (auto s : out.states) {
    std::vector<TATransition> moves;
    for (auto &edges : s->next) {
      const Alphabet c = edges.first;
      for (auto it = edges.second.begin(); it != edges.second.end();) {
        TAState *t = it->target;
        if (!t) { it = edges.second.erase(it); continue; }
        if (!same(t, c)) { it++; continue; }
        moves.push_back(*it);
        if (!t->isMatch) { it = edges.second.erase(it); continue; }
        if (accepting.find(t) == accepting.end()) accepting[t] = std::make_shared<TAState>(true);
        it->target = accepting[t].get();
      }
    }
    if (!moves.empty()) s->next[0].insert(s->next[0].end(), moves.begin(), moves.end());
  }
  for (const auto &p : accepting) {
    p.first->isMatch = false;
    out.states.push_back(p.second);
  }
}
} // namespace spec
