// Reference definitions: input words (P06, P10).
#include "word_container.hh"
namespace spec {
void assume(bool);
using Event = std::pair<Alphabet, double>;
using Deque = std::deque<Event>;
// a complete record or nothing
int getOne(FILE *file, Event &p) {
  const int fields = fscanf(file, " %c %lf\n", &p.first, &p.second);
  return fields == 2 ? fields : EOF;
}
int getOneBinary(FILE *file, Event &p) {
  if (fread(&p.first, sizeof(char), 1, file) == 0) return EOF;
  if (fread(&p.second, sizeof(double), 1, file) == 0) return EOF;
  return sizeof(char) + sizeof(double);
}
void dequeCtor(LazyDeque &self, FILE *file, bool isBinary) {
  assume(file != nullptr);
  self.front = 0;
  self.N = std::numeric_limits<std::size_t>::max();
  self.file = file;
  if (isBinary) self.getElem = ::getOneBinary; else self.getElem = ::getOne;
}
// events outside [front, front + buffered) are not there
Event dequeAt(LazyDeque &self, std::size_t n) {
  const Deque &d = self;
  if (n < self.front || n >= self.N || n - self.front >= d.size()) throw std::out_of_range("");
  return d[n - self.front];
}
void setFront(LazyDeque &self, std::size_t newFront) {
  Deque &d = self;
  if (newFront < self.front) throw std::out_of_range("");
  const std::size_t dropped = newFront - self.front;
  const std::size_t buffered = std::min(dropped, d.size());
  const int unread = dropped - buffered;
  self.front = newFront;
  d.erase(d.begin(), d.begin() + buffered);
  for (int i = 0; i < unread; i++) {
    Event skipped;
    self.getElem(self.file, skipped);
  }
}
bool fetch(LazyDeque &self, std::size_t n) {
  Deque &d = self;
  if (n < self.front || n >= self.N) return false;
  const int missing = (n - self.front) - d.size() + 1;
  for (int i = 0; i < missing; i++) {
    Event elem;
    if (self.getElem(self.file, elem) == EOF) {
      self.N = self.front + d.size();
      return false;
    }
    d.push_back(elem);
  }
  return true;
}
std::size_t dequeSize(const LazyDeque &self) { return self.N; }
using WC = WordContainer<LazyDeque>;
Event wcIndex(WC &self, const std::size_t n) { return self.vec[n]; }
Event wcAt(WC &self, const std::size_t n) { return self.vec.at(n); }
std::size_t wcSize(const WC &self) { return self.vec.size(); }
void wcSetFront(WC &self, std::size_t n) { self.vec.setFront(n); }
bool wcFetch(WC &self, std::size_t n) { return self.vec.fetch(n); }
using WV = WordVector<Event>;
void wvCtor(WV &self, FILE *file, bool isBinary) {
  Event elem;
  while ((isBinary ? ::getOneBinary(file, elem) : ::getOne(file, elem)) != EOF) self.vec.push_back(elem);
}
bool vectorFetch(Vector<Event> &self, std::size_t n) { const std::vector<Event> &v = self; return n < v.size(); }
void vectorSetFront(Vector<Event> &self, std::size_t) {}
} // namespace spec
