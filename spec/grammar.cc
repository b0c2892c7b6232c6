// what each production of the pattern language builds, and the values of the tokens
#include "tre_driver.hh"
#include "tre_scanner.hh"
#include <limits>
#include <cstdlib>
namespace spec {
using token = MONAA::TREParser::token;

using E = std::shared_ptr<TRE>;
using I = std::shared_ptr<Interval>;
void grUnit(MONAA::TREParser &self, E e) { self.driver.result = e; }
E grLetter(E, char c) { return std::make_shared<TRE>(TRE::op::atom, c); }
E grSame(E, E e) { return e; }
I grSame2(I, I e) { return e; }
E grPlus(E, E e) { return std::make_shared<TRE>(TRE::op::plus, e); }
// one or more times, or not at all
E grStar(E, E e) { return std::make_shared<TRE>(TRE::op::disjunction, TRE::epsilon, std::make_shared<TRE>(TRE::op::plus, e)); }
E grConcat(E, E x, E y) { return std::make_shared<TRE>(TRE::op::concat, x, y); }
E grOr(E, E x, E y) { return std::make_shared<TRE>(TRE::op::disjunction, x, y); }
E grAnd(E, E x, E y) { return std::make_shared<TRE>(TRE::op::conjunction, x, y); }
E grWithin(E, E x, I i) { return std::make_shared<TRE>(TRE::op::within, x, i); }
I between(double lo, bool loIn, double hi, bool hiIn) {
  I r = std::make_shared<Interval>();
  r->lowerBound = std::make_pair(lo, loIn);
  r->upperBound = std::make_pair(hi, hiIn);
  return r;
}
const double never = std::numeric_limits<double>::infinity();
I grOpenOpen(I, int a, int b) { return between(a, false, b, false); }
I grClosedOpen(I, int a, int b) { return between(a, true, b, false); }
I grOpenClosed(I, int a, int b) { return between(a, false, b, true); }
I grClosedClosed(I, int a, int b) { return between(a, true, b, true); }
I grLess(I, int b) { return between(0, true, b, false); }
I grLessEq(I, int b) { return between(0, true, b, true); }
I grEqual(I, int b) { return between(b, true, b, true); }
I grGreaterEq(I, int b) { return between(b, true, never, false); }
I grGreater(I, int b) { return between(b, false, never, false); }
int lexLetter(TREScanner &self, MONAA::TREParser::semantic_type *const lval, MONAA::TREParser::location_type *loc) {
  self.yylval->build<char>(self.yytext[0]);
  return token::ATOM;
}
int lexNumber(TREScanner &self, MONAA::TREParser::semantic_type *const lval, MONAA::TREParser::location_type *loc) {
  self.yylval->build<int>(atoi(self.yytext));
  return token::INT;
}
// a text is accepted when the parser finishes; an ended stream has no text
bool driverParse(TREDriver &self, std::istream &in) { return (in.good() || !in.eof()) && self.parse_helper(in); }
bool driverRun(TREDriver &self, std::istream &in) {
  TREScanner scanner(&in);
  MONAA::TREParser parser(scanner, self);
  return parser.parse() == 0;
}
std::shared_ptr<const TRE> driverResult(const TREDriver &self) { return self.result; }
}
