// Instantiates every template of the library that the executables leave
// uninstantiated, so that the analysis sees their bodies with resolved types.
#include "monaa.hh"
#include "intermediate_tre.hh"
#include "objective_tre.hh"
#include "timed_automaton_parser.hh"
#include <sstream>

using Word = WordVector<std::pair<Alphabet, double>>;
template class WordContainer<LazyDeque>;
template class WordContainer<Vector<std::pair<Alphabet, double>>>;
template class WordVector<std::pair<Alphabet, double>>;
template class Vector<std::pair<Alphabet, double>>;
template class AnsContainer<std::vector<Zone>>;
template class AnsVec<Zone>;
template class IntContainer<Zone>;
template class AnsContainer<IntContainer<Zone>>;
template std::size_t AnsContainer<PrintContainer>::size() const;
template void AnsContainer<PrintContainer>::clear();
template struct Automaton<TAState>;
template struct Automaton<ZAState>;

template void monaa<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer> &);
template void monaaDollar<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer> &);
template void monaaNotNecessaryDollar<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer> &);
