// Reference definitions: automata as DOT text (P24).
#include "timed_automaton_parser.hh"
#include "constraint.hh"
namespace spec {
using In = std::istream;
void bad(In &in) { in.setstate(std::ios_base::failbit); }
// a guard is written "x1 < 2", the comparison being one of < <= > >=
In &readGuard(In &in, Constraint &out) {
  int clock;
  char relation, rest;
  if (in.get() != 'x') {
    bad(in);
    return in;
  }
  in >> clock;
  out.x = clock;
  if (!in || in.get() != ' ') {
    bad(in);
    return in;
  }
  in >> relation >> rest;
  const bool ends = rest == ' ', orEqual = rest == '=';
  if ((relation != '<' && relation != '>') || (!ends && !orEqual)) {
    bad(in);
    return in;
  }
  if (relation == '<') out.odr = orEqual ? Constraint::Order::le : Constraint::Order::lt;
  else out.odr = orEqual ? Constraint::Order::ge : Constraint::Order::gt;
  if (orEqual && in.get() != ' ') {
    bad(in);
    return in;
  }
  in >> out.c;
  return in;
}
In &readResetVars(In &in, ResetVars &out) { in >> out.resetVars; return in; }
// a set is written "{a, b, c}"
template <class T, class Read> In &readSet(In &in, std::vector<T> &out, Read read) {
  out.clear();
  if (!in || in.get() != '{' || !in) {
    bad(in);
    return in;
  }
  while (true) {
    char after;
    out.push_back(read(in));
    if (!in) {
      bad(in);
      return in;
    }
    in >> after;
    if (after == '}') return in;
    if (after == ',') {
      in >> after;
      if (after == ' ') continue;
    }
    bad(in);
    return in;
  }
}
In &readClocks(In &in, std::vector<ClockVariables> &out) {
  return readSet(in, out, [](In &in) {
    int clock;
    in >> clock;
    return ClockVariables(clock);
  });
}
In &readGuards(In &in, std::vector<Constraint> &out) {
  return readSet(in, out, [](In &in) {
    Constraint guard;
    in >> guard;
    return guard;
  });
}
// one state for each vertex, one transition for each edge, each with its attributes; the clocks are those of the guards and resets
void fromGraph(const BoostTimedAutomaton &graph, TimedAutomaton &out) {
  std::unordered_map<std::size_t, std::shared_ptr<TAState>> stateOf;
  out.states.clear();
  out.initialStates.clear();
  out.maxConstraints.clear();
  const auto vs = boost::vertices(graph);
  for (auto v = vs.first; v != vs.second; ++v) {
    const auto state = std::make_shared<TAState>(graph[*v].isMatch);
    stateOf[*v] = state;
    out.states.push_back(state);
    if (graph[*v].isInit) out.initialStates.push_back(state);
  }
  for (auto v = vs.first; v != vs.second; ++v) {
    const auto es = boost::out_edges(*v, graph);
    for (auto e = es.first; e != es.second; ++e) {
      TATransition t;
      t.target = stateOf[boost::target(*e, graph)].get();
      t.guard = graph[*e].guard;
      t.resetVars = graph[*e].resetVars.resetVars;
      for (const Constraint &g : t.guard) {
        if (out.maxConstraints.size() <= g.x) out.maxConstraints.resize(g.x + 1);
        if (out.maxConstraints[g.x] < g.c) out.maxConstraints[g.x] = g.c;
      }
      for (ClockVariables x : t.resetVars)
        if (out.maxConstraints.size() <= x) out.maxConstraints.resize(x + 1);
      stateOf[*v]->next[graph[*e].c].push_back(t);
    }
  }
}
}
