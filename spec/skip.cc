// Reference definitions: skip tables (P08, P09).
#include "sunday_skip_value.hh"
#include "kmp_skip_value.hh"
namespace spec {
void assume(bool);
using ZAStateP = std::shared_ptr<ZAState>;
// m: the number of letters of a shortest accepted word; delta: the distance from the last position of the
// window where the letter can be read to the end of the window, m + 1 if there is none
void sunday(SundaySkipValue &self, const TimedAutomaton &TA) {
  ZoneAutomaton ZA;
  ::ta2za(TA, ZA);
  ZA.removeDeadStates();
  bool emptyWord = false;
  for (const auto &z : ZA.initialStates)
    if (z->isMatch) emptyWord = true;
  if (emptyWord) {
    // a match may contain no event: the window cannot be moved past anything
    self.m = 1;
    self.delta.fill(1);
    for (char c = 1; c < CHAR_MAX; c++) self.endChars.insert(c);
    return;
  }
  std::vector<std::unordered_set<char>> letters;
  bool accepted = false;
  self.m = 0;
  std::vector<ZAStateP> front = ZA.initialStates;
  while (!accepted) {
    assume(letters.size() == self.m && self.m >= 0);
    if (front.empty()) {
      std::cerr << "monaa: empty pattern" << std::endl;
      exit(10);
    }
    std::vector<ZAStateP> successors;
    self.m++;
    letters.resize(self.m);
    for (const ZAStateP &s : front) {
      assume(letters.size() == self.m && self.m > 0);
      std::unordered_set<ZAStateP> closure;
      closure.insert(s);
      epsilonClosure(closure);
      for (const ZAStateP &q : closure) {
        assume(letters.size() == self.m && self.m > 0);
        for (char c = 1; c < CHAR_MAX; c++) {
          assume(letters.size() == self.m && self.m > 0);
          for (const auto &edge : q->next[c]) {
            assume(letters.size() == self.m && self.m > 0);
            ZAStateP t = edge.lock();
            if (!t) continue;
            if (t->isMatch) accepted = true;
            successors.push_back(t);
            letters[self.m - 1].insert(c);
          }
        }
      }
    }
    front = successors;
  }
  assume(letters.size() == self.m && self.m > 0);
  self.delta.fill(self.m + 1);
  for (int i = 0; i < self.m; i++)
    for (char c : letters[i]) self.delta[c] = self.m - i;
  self.endChars = letters[self.m - 1];
}
unsigned int sundayAt(const SundaySkipValue &self, std::size_t n) { return self.delta[n]; }
int sundayM(const SundaySkipValue &self) { return self.m; }
void sundayEnd(const SundaySkipValue &self, std::unordered_set<char> &chars) { chars = self.endChars; }
// beta(s): the least n for which some word that leads to s is, after n arbitrary letters, also the beginning of (or starts with) a match
void kmp(KMPSkipValue &self, const TimedAutomaton &TA, int m) {
  ZoneAutomaton ZA;
  TimedAutomaton both, A0, As;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> toIState;
  std::unordered_map<TAState *, std::shared_ptr<TAState>> old2new0, old2newS;
  TA.deepCopy(A0, old2new0);
  // delayed[n] reads n letters and then the pattern, begun at any time in the first step
  std::vector<std::shared_ptr<TAState>> delayed(m + 1);
  for (auto &s : delayed) s = std::make_shared<TAState>();
  for (const auto &s : A0.initialStates)
    for (const auto &edges : s->next)
      for (TATransition e : edges.second) {
        widen(e.guard);
        delayed[0]->next[edges.first].push_back(e);
      }
  std::vector<ClockVariables> allClocks(TA.clockSize());
  for (std::size_t x = 0; x < TA.clockSize(); x++) allClocks[x] = x;
  for (int n = 1; n <= m; n++)
    for (char c = 1; c < CHAR_MAX; c++) delayed[n]->next[c].push_back({delayed[n - 1].get(), allClocks, {}});
  // whatever follows a match is accepted
  auto matched = std::make_shared<TAState>(true);
  for (char c = 1; c < CHAR_MAX; c++) matched->next[c].push_back({matched.get(), {}, {}});
  for (auto &s : A0.states)
    for (auto &edges : s->next) {
      std::vector<TATransition> ends;
      for (TATransition e : edges.second)
        if (e.target && e.target->isMatch) {
          e.target = matched.get();
          widen(e.guard);
          ends.push_back(e);
        }
      edges.second.insert(edges.second.end(), ends.begin(), ends.end());
    }
  A0.states.push_back(matched);
  A0.states.insert(A0.states.end(), delayed.begin(), delayed.end());
  // from every state of the copy anything may follow
  TA.deepCopy(As, old2newS);
  std::unordered_map<std::shared_ptr<TAState>, std::shared_ptr<TAState>> rest;
  for (const auto &s : As.states) {
    rest[s] = std::make_shared<TAState>();
    s->next[0].push_back({rest[s].get(), {}, {}});
    for (char c = 1; c < CHAR_MAX; c++) rest[s]->next[c].push_back({rest[s].get(), {}, {}});
  }
  for (const auto &r : rest) As.states.push_back(r.second);
  ::intersectionTA(A0, As, both, toIState);
  for (const auto &orig : TA.states) {
    for (auto &s : As.states) s->isMatch = s == old2newS[orig.get()] || s == rest[old2newS[orig.get()]];
    for (int n = 1; n <= m; n++) {
      A0.initialStates = {delayed[n]};
      ::updateInitAccepting(A0, As, both, toIState);
      std::sort(both.initialStates.begin(), both.initialStates.end());
      ::ta2za(both, ZA);
      ZA.updateInitAccepting(both.initialStates);
      if (!ZA.empty()) {
        self.beta[orig.get()] = n;
        break;
      }
    }
    self.beta.insert({orig.get(), m});
  }
}
int kmpAt(const KMPSkipValue &self, const TAState *s) { return self.beta.at(s); }
int kmpAtShared(const KMPSkipValue &self, const std::shared_ptr<TAState> &s) { return self.beta.at(s.get()); }
} // namespace spec
