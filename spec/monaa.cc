// Reference definitions: the matching functions (P03, P04, P05, P06, P07, P16, P26).
#include "monaa.hh"
namespace spec {
using Word = WordContainer<LazyDeque>;
using Ans = AnsContainer<PrintContainer>;
using Order = Constraint::Order;
using Conf = IntervalInternalState;

bool isValidConstraint(const Bounds &up, const Bounds &low) { return up + low >= Bounds{0.0, true}; }

void updateConstraint(std::pair<double, bool> &up, std::pair<double, bool> &low, const Constraint &delta, const double v) {
  const bool closed = delta.odr == Order::le || delta.odr == Order::ge;
  if (delta.odr == Order::gt || delta.odr == Order::ge) {
    if (low.first < v) low = {v, closed};
    else if (low.first == v && !closed) low.second = false;
  } else {
    if (up.first > v) up = {v, closed};
    else if (up.first == v && !closed) up.second = false;
  }
}

// the copy of the automaton in which the states with a '$' transition are the accepting ones
void withoutDollar(const TimedAutomaton &A, TimedAutomaton &Ap, std::unordered_map<const TAState *, std::shared_ptr<TAState>> &ptrConv) {
  Ap.maxConstraints = A.maxConstraints;
  for (const auto &s : A.states) {
    ptrConv[s.get()] = std::make_shared<TAState>(*s);
    Ap.states.push_back(ptrConv[s.get()]);
    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) != A.initialStates.end()) Ap.initialStates.push_back(ptrConv[s.get()]);
  }
  for (const auto &s : Ap.states) {
    if (s->next.find('$') != s->next.end()) {
      s->isMatch = true;
      s->next.erase('$');
    }
    for (auto &letter : s->next)
      for (auto &e : letter.second) e.target = ptrConv[e.target].get();
  }
}

bool hasSilent(const TimedAutomaton &A) {
  for (const auto &s : A.states)
    if (s->next.find(0) != s->next.end()) return true;
  return false;
}

// Sunday: move on while no window of this length can end with the letter read; false at the end of the input
bool sundayShift(Word &word, const SundaySkipValue &delta, const std::unordered_set<Alphabet> &endChars, const int m, std::size_t &i) {
  bool tooLarge = false;
  if (m > 1 && word.fetch(i + m - 1)) {
    while (endChars.find(word[i + m - 1].first) == endChars.end()) {
      if (!word.fetch(i + m)) { tooLarge = true; break; }
      i += delta[word[i + m].first];
      word.setFront(i - 1);
      if (!word.fetch(i + m - 1)) { tooLarge = true; break; }
    }
  }
  return !tooLarge;
}

// the last step of a match: the event with the guard happens in the window (lowerEnd, upperEnd) and ends the match
void accept(const Conf &config, const TATransition &edge, const Bounds upperEnd, const Bounds lowerEnd, Ans &ans) {
  const Bounds zeroBounds = {0, true};
  if (!edge.target || !edge.target->isMatch) return;
  Bounds upperBeginConstraint = config.upperConstraint, lowerBeginConstraint = config.lowerConstraint;
  Bounds upperEndConstraint = upperEnd, lowerEndConstraint = lowerEnd;
  Bounds upperDeltaConstraint = upperEndConstraint + lowerBeginConstraint;
  Bounds lowerDeltaConstraint = std::min(lowerEndConstraint + upperBeginConstraint, zeroBounds);
  for (const Constraint &delta : edge.guard) {
    const double reset = config.resetTime[delta.x];
    if (delta.odr == Order::lt || delta.odr == Order::le) {
      if (reset) {
        upperEndConstraint = std::min(upperEndConstraint, Bounds{delta.c + reset, delta.odr == Order::le});
        upperDeltaConstraint = std::min(upperDeltaConstraint, upperEndConstraint + lowerBeginConstraint);
        upperBeginConstraint = std::min(upperBeginConstraint, lowerDeltaConstraint + upperEndConstraint);
      } else {
        upperDeltaConstraint = std::min(upperDeltaConstraint, Bounds{static_cast<double>(delta.c), delta.odr == Order::le});
        upperEndConstraint = std::min(upperEndConstraint, upperDeltaConstraint + upperBeginConstraint);
        lowerBeginConstraint = std::min(lowerBeginConstraint, lowerEndConstraint + upperDeltaConstraint);
      }
    } else {
      if (reset) {
        lowerEndConstraint = std::min(lowerEndConstraint, Bounds{-delta.c - reset, delta.odr == Order::ge});
        lowerDeltaConstraint = std::min(lowerDeltaConstraint, upperBeginConstraint + lowerEndConstraint);
        lowerBeginConstraint = std::min(lowerBeginConstraint, lowerEndConstraint + upperDeltaConstraint);
      } else {
        lowerDeltaConstraint = std::min(lowerDeltaConstraint, Bounds{static_cast<double>(-delta.c), delta.odr == Order::ge});
        upperBeginConstraint = std::min(upperBeginConstraint, lowerDeltaConstraint + upperEndConstraint);
        lowerEndConstraint = std::min(lowerEndConstraint, lowerBeginConstraint + lowerDeltaConstraint);
      }
    }
  }
  if (!isValidConstraint(upperBeginConstraint, lowerBeginConstraint)) return;
  if (!isValidConstraint(upperEndConstraint, lowerEndConstraint)) return;
  if (!isValidConstraint(upperDeltaConstraint, lowerDeltaConstraint)) return;
  Zone ansZone = Zone::zero(3);
  ansZone.value(0, 1) = lowerBeginConstraint;
  ansZone.value(1, 0) = upperBeginConstraint;
  ansZone.value(0, 2) = lowerEndConstraint;
  ansZone.value(2, 0) = upperEndConstraint;
  ansZone.value(1, 2) = lowerDeltaConstraint;
  ansZone.value(2, 1) = upperDeltaConstraint;
  ans.push_back(std::move(ansZone));
}

void acceptAll(const std::vector<Conf> &confs, const char c, const Bounds upperEnd, const Bounds lowerEnd, Ans &ans) {
  for (const Conf &config : confs) {
    const auto it = config.s->next.find(c);
    if (it == config.s->next.end()) continue;
    for (const TATransition &edge : it->second) accept(config, edge, upperEnd, lowerEnd, ans);
  }
}

// reading the letter c at time t; with instant, a match also ends where an accepting state is entered
void readLetter(const std::vector<Conf> &confs, const char c, const double t, std::vector<Conf> &CStates, const bool instant, Ans &ans) {
  for (const Conf &config : confs) {
    const auto it = config.s->next.find(c);
    if (it == config.s->next.end()) continue;
    for (const TATransition &edge : it->second) {
      if (!edge.target) continue;
      Bounds upperBeginConstraint = config.upperConstraint, lowerBeginConstraint = config.lowerConstraint;
      bool transitable = true;
      for (const Constraint &delta : edge.guard) {
        if (config.resetTime[delta.x]) {
          if (!delta.satisfy(t - config.resetTime[delta.x])) { transitable = false; break; }
        } else if (delta.odr == Order::lt || delta.odr == Order::le)
          lowerBeginConstraint = std::min(lowerBeginConstraint, Bounds{delta.c - t, delta.odr == Order::le});
        else
          upperBeginConstraint = std::min(upperBeginConstraint, Bounds{t - delta.c, delta.odr == Order::ge});
      }
      if (!transitable || !isValidConstraint(upperBeginConstraint, lowerBeginConstraint)) continue;
      std::vector<double> resetTime = config.resetTime;
      for (ClockVariables x : edge.resetVars) resetTime[x] = t;
      if (instant && edge.target->isMatch) {
        const Bounds upperEndConstraint = {t, true}, lowerEndConstraint = {-t, true};
        const Bounds upperDeltaConstraint = upperEndConstraint + lowerBeginConstraint;
        const Bounds lowerDeltaConstraint = std::min(lowerEndConstraint + upperBeginConstraint, Bounds{0, true});
        if (!isValidConstraint(upperEndConstraint, lowerEndConstraint) || !isValidConstraint(upperDeltaConstraint, lowerDeltaConstraint)) continue;
        Zone ansZone = Zone::zero(3);
        ansZone.value(0, 1) = lowerBeginConstraint;
        ansZone.value(1, 0) = upperBeginConstraint;
        ansZone.value(0, 2) = lowerEndConstraint;
        ansZone.value(2, 0) = upperEndConstraint;
        ansZone.value(1, 2) = lowerDeltaConstraint;
        ansZone.value(2, 1) = upperDeltaConstraint;
        ans.push_back(std::move(ansZone));
      }
      CStates.emplace_back(edge.target, resetTime, upperBeginConstraint, lowerBeginConstraint);
    }
  }
}

void begin(Word &word, const TimedAutomaton &A, const std::size_t i, std::vector<Conf> &CStates) {
  const Bounds late = {word[i].second, false}, early = i == 0 ? Bounds{0, true} : Bounds{-word[i - 1].second, true};
  for (const auto &s : A.initialStates) CStates.emplace_back(s.get(), std::vector<double>(A.clockSize(), 0), late, early);
}

// the end of a match: after the last event read and before or at the next one
Bounds after(Word &word, const std::size_t j) { return j > 0 ? Bounds{-word[j - 1].second, false} : Bounds{0, true}; }

void monaaInstantOrDollar(Word &word, TimedAutomaton &A, Ans &ans, const bool instant) {
  TimedAutomaton Ap;
  std::unordered_map<const TAState *, std::shared_ptr<TAState>> ptrConv;
  withoutDollar(A, Ap, ptrConv);
  const SundaySkipValue delta(Ap);
  const int m = delta.getM();
  std::unordered_set<Alphabet> endChars;
  delta.getEndChars(endChars);
  const KMPSkipValue beta(Ap, m);
  if (hasSilent(A)) return;
  std::size_t i = 0, j;
  std::vector<Conf> CStates, LastStates;
  ans.clear();
  while (word.fetch(i + m - 1)) {
    if (!sundayShift(word, delta, endChars, m, i)) break;
    CStates.clear();
    if (!word.fetch(i)) break;
    begin(word, A, i, CStates);
    j = i;
    while (!CStates.empty() && word.fetch(j)) {
      const Alphabet c = word[j].first;
      const double t = word[j].second;
      acceptAll(CStates, '$', {word[j].second, true}, after(word, j), ans);
      LastStates = std::move(CStates);
      CStates.clear();
      readLetter(LastStates, c, t, CStates, instant, ans);
      j++;
    }
    if (!word.fetch(j)) {
      acceptAll(CStates, '$', {std::numeric_limits<double>::infinity(), true}, after(word, j), ans);
      LastStates = std::move(CStates);
    }
    int greatestN = 1;
    for (const Conf &istate : LastStates) greatestN = std::max(greatestN, beta[ptrConv[istate.s].get()]);
    i += greatestN;
    word.setFront(i - 1);
  }
}
void monaaDollar(Word word, TimedAutomaton A, Ans &ans) { monaaInstantOrDollar(word, A, ans, false); }
void monaaNotNecessaryDollar(Word word, TimedAutomaton A, Ans &ans) { monaaInstantOrDollar(word, A, ans, true); }

void monaa(Word word, TimedAutomaton A, Ans &ans) {
  const SundaySkipValue delta(A);
  const int m = delta.getM();
  std::unordered_set<Alphabet> endChars;
  delta.getEndChars(endChars);
  const KMPSkipValue beta(A, m);
  std::size_t i = 0, j;
  ans.clear();
  if (!hasSilent(A)) {
    std::vector<Conf> CStates, LastStates;
    while (word.fetch(i + m - 1)) {
      if (!sundayShift(word, delta, endChars, m, i)) break;
      CStates.clear();
      if (!word.fetch(i)) break;
      begin(word, A, i, CStates);
      j = i;
      while (!CStates.empty() && word.fetch(j)) {
        const Alphabet c = word[j].first;
        const double t = word[j].second;
        acceptAll(CStates, c, {word[j].second, true}, after(word, j), ans);
        LastStates = std::move(CStates);
        CStates.clear();
        readLetter(LastStates, c, t, CStates, false, ans);
        j++;
      }
      if (!word.fetch(j)) LastStates = std::move(CStates);
      int greatestN = 1;
      for (const Conf &istate : LastStates) greatestN = std::max(greatestN, beta[istate.s]);
      i += greatestN;
      word.setFront(i - 1);
    }
  } else {
    std::vector<InternalState> CStates, LastStates;
    while (word.fetch(i + m - 1)) {
      if (!sundayShift(word, delta, endChars, m, i)) break;
      CStates.clear();
      if (!word.fetch(i)) break;
      const InternalState istate = {A.clockSize(), nullptr,
                                    Interval{i == 0 ? Bounds{0, true} : Bounds{word[i - 1].second, true}, {word[i].second, false}}};
      CStates.resize(A.initialStates.size(), istate);
      for (std::size_t k = 0; k < A.initialStates.size(); k++) CStates[k].s = A.initialStates[k].get();
      j = i;
      while (!CStates.empty() && word.fetch(j)) {
        std::vector<InternalState> CurrEpsilonConf;
        for (auto &istate : CStates)
          if (istate.s->next.find(0) != istate.s->next.end()) CurrEpsilonConf.push_back(istate);
        while (!CurrEpsilonConf.empty()) {
          std::vector<InternalState> PrevEpsilonConf = std::move(CurrEpsilonConf);
          CurrEpsilonConf.clear();
          for (const auto &econfig : PrevEpsilonConf) {
            const auto it = econfig.s->next.find(0);
            if (it == econfig.s->next.end()) continue;
            for (const auto &edge : it->second) {
              if (!edge.target) continue;
              IntermediateZone tmpZ = econfig.z;
              const ClockVariables newClock = tmpZ.alloc({word[j].second, true}, after(word, j));
              tmpZ.tighten(edge.guard, econfig.resetTime);
              if (!tmpZ.isSatisfiableCanonized()) continue;
              auto tmpResetTime = econfig.resetTime;
              for (ClockVariables x : edge.resetVars) tmpResetTime[x] = newClock;
              tmpZ.update(tmpResetTime);
              CurrEpsilonConf.emplace_back(edge.target, tmpResetTime, tmpZ);
            }
          }
          CStates.insert(CStates.end(), CurrEpsilonConf.begin(), CurrEpsilonConf.end());
        }
        const Alphabet c = word[j].first;
        const double t = word[j].second;
        for (const auto &config : CStates) {
          const auto it = config.s->next.find(c);
          if (it == config.s->next.end()) continue;
          for (const auto &edge : it->second) {
            if (!edge.target || !edge.target->isMatch) continue;
            IntermediateZone tmpZ = config.z;
            tmpZ.alloc({word[j].second, true}, after(word, j));
            tmpZ.tighten(edge.guard, config.resetTime);
            if (!tmpZ.isSatisfiableCanonized()) continue;
            Zone ansZone;
            tmpZ.toAns(ansZone);
            ans.push_back(std::move(ansZone));
          }
        }
        LastStates = std::move(CStates);
        CStates.clear();
        for (const auto &config : LastStates) {
          const auto it = config.s->next.find(c);
          if (it == config.s->next.end()) continue;
          for (const auto &edge : it->second) {
            if (!edge.target) continue;
            IntermediateZone tmpZ = config.z;
            tmpZ.tighten(edge.guard, config.resetTime, t);
            if (!tmpZ.isSatisfiableCanonized()) continue;
            auto tmpResetTime = config.resetTime;
            for (ClockVariables x : edge.resetVars) tmpResetTime[x] = t;
            tmpZ.update(tmpResetTime);
            CStates.emplace_back(edge.target, tmpResetTime, tmpZ);
          }
        }
        j++;
      }
      if (!word.fetch(j)) LastStates = std::move(CStates);
      int greatestN = 1;
      for (const InternalState &istate : LastStates) greatestN = std::max(greatestN, beta[istate.s]);
      i += greatestN;
      word.setFront(i - 1);
    }
  }
}
} // namespace spec
