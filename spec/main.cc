// the command line tools: what every combination of options means
#include <boost/program_options.hpp>
#include <iostream>
#include "monaa.hh"
#include "timed_automaton_parser.hh"
#include "tre_driver.hh"
namespace spec {
namespace po = boost::program_options;
// 0: done (or only information was asked for), 1: options or files that cannot be used, 2: a pattern that cannot be parsed
int mainMonaa(int argc, char *argv[]) {
  std::string word, automaton, expression;
  po::options_description all("options");
  all.add_options()("version,V", "")("help,h", "")("quiet,q", "")
    ("binary,b", "")("ascii,a", "")("signal,S", "")("event,E", "")
    ("expression,e", po::value<std::string>(&expression)->default_value(""), "")
    ("automaton,f", po::value<std::string>(&automaton)->default_value(""), "")
    ("input,i", po::value<std::string>(&word)->default_value("stdin"), "");
  po::command_line_parser parser(argc, argv);
  parser.options(all);
  po::variables_map given;
  std::vector<std::string> rest;
  try {
    const auto result = parser.run();
    po::store(result, given);
    po::notify(given);
    rest = po::collect_unrecognized(result.options, po::include_positional);
  } catch (const po::error &e) {
    std::cerr << "monaa: " << e.what() << "\n";
    return 1;
  }
  // what is not an option is the pattern when there is none yet, then the input
  for (const std::string &s : rest)
    if (automaton.empty() && expression.empty()) expression = s;
    else if (word == "stdin") word = s;
  if (given.count("version")) return 0;
  if (given.count("help") || (automaton.empty() && expression.empty())) {
    std::cout << all;
    return 0;
  }
  const bool binary = given.count("binary"), signal = given.count("signal");
  if ((binary && given.count("ascii")) || (signal && given.count("event"))) {
    std::cerr << "monaa: conflicting input formats specified\n";
    return 1;
  }
  if (!automaton.empty() && !expression.empty()) {
    std::cerr << "monaa: both a timed automaton and a timed regular expression are specified\n";
    return 1;
  }
  TimedAutomaton pattern;
  if (!expression.empty()) {
    std::stringstream text;
    text << expression.c_str();
    TREDriver driver;
    if (!driver.parse(text)) {
      std::cerr << "monaa: Failed to parse TRE\n";
      return 2;
    }
    if (signal) toSignalTA(driver.getResult(), pattern);
    else driver.getResult()->toEventTA(pattern);
  } else {
    if (signal) {
      std::cerr << "monaa: signal-mode is not supported only for TAs\n";
      return 1;
    }
    std::ifstream file(automaton);
    if (!file) {
      std::cerr << "monaa: Failed to open the timed automaton file\n";
      return 1;
    }
    BoostTimedAutomaton graph;
    try {
      parseBoostTA(file, graph);
    } catch (const std::exception &e) {
      std::cerr << "monaa: " << e.what() << "\n";
      return 2;
    }
    convBoostTA(graph, pattern);
  }
  FILE *input = stdin;
  if (word != "stdin") {
    input = fopen(word.c_str(), "r");
    if (!input) {
      perror("timed word file");
      return 1;
    }
  }
  AnsPrinter answers(given.count("quiet"));
  WordLazyDeque words(input, binary);
  if (signal) monaa(words, pattern, answers);
  else monaaDollar(words, pattern, answers);
  return 0;
}

int mainTre2ta(int argc, char *argv[]) {
  std::string expression, output;
  po::options_description all("options");
  all.add_options()("version,V", "")("help,h", "")
    ("expression,e", po::value<std::string>(&expression)->default_value(""), "")
    ("output-file,o", po::value<std::string>(&output)->default_value("stdout"), "");
  po::command_line_parser parser(argc, argv);
  parser.options(all);
  po::variables_map given;
  std::vector<std::string> rest;
  try {
    const auto result = parser.run();
    po::store(result, given);
    po::notify(given);
    rest = po::collect_unrecognized(result.options, po::include_positional);
  } catch (const po::error &e) {
    std::cerr << "tre2ta: " << e.what() << "\n";
    return 1;
  }
  for (const std::string &s : rest) expression = s;
  if (given.count("version")) return 0;
  if (given.count("help") || expression.empty()) {
    std::cout << all;
    return 0;
  }
  std::stringstream text;
  text << expression.c_str();
  TREDriver driver;
  if (!driver.parse(text)) {
    std::cerr << "tre2ta: Failed to parse TRE\n";
    return 2;
  }
  TimedAutomaton result;
  driver.getResult()->toEventTA(result);
  if (output == "stdout") {
    std::cout << result;
  } else {
    std::ofstream file(output);
    if (!file) {
      std::cerr << "tre2ta: Failed to open the output file\n";
      return 1;
    }
    file << result;
  }
  return 0;
}
}
