// Reference definitions: answer containers (P23).
#include "ans_vec.hh"
namespace spec {
using PC = PrintContainer;
const char *rel(const Bounds &b) { return b.second ? "<=" : "<"; }
void printAns(PC &self, const Zone &ans) {
  self.count++;
  if (self.isQuiet) return;
  const Bounds t0 = ans.value(0, 1), t1 = ans.value(1, 0), e0 = ans.value(0, 2), e1 = ans.value(2, 0), d0 = ans.value(1, 2), d1 = ans.value(2, 1);
  printf("%10lf %8s t %s %10lf\n", -t0.first, rel(t0), rel(t1), t1.first);
  printf("%10lf %8s t' %s %10lf\n", -e0.first, rel(e0), rel(e1), e1.first);
  printf("%10lf %8s t' - t %s %10lf\n", -d0.first, rel(d0), rel(d1), d1.first);
  printf("=============================\n");
}
void printCtor(PC &self, bool isQuiet) { self.count = 0; self.isQuiet = isQuiet; }
std::size_t printSize(const PC &self) { return self.count; }
void printClear(PC &self) { self.count = 0; }
void intPush(IntContainer<Zone> &self, Zone) { self.count++; }
std::size_t intSize(const IntContainer<Zone> &self) { return self.count; }
void intClear(IntContainer<Zone> &self) { self.count = 0; }
using AP = AnsContainer<PrintContainer>;
using AN = AnsContainer<IntContainer<Zone>>;
using AV = AnsContainer<std::vector<Zone>>;
void apPush(AP &self, Zone in) { self.vec.push_back(in); }
void anPush(AN &self, Zone in) { self.vec.push_back(in); }
void avPush(AV &self, Zone in) { self.vec.push_back(in); }
std::size_t apSize(const AP &self) { return self.vec.size(); }
std::size_t anSize(const AN &self) { return self.vec.size(); }
std::size_t avSize(const AV &self) { return self.vec.size(); }
void avClear(AV &self) { self.vec.clear(); }
void apClear(AP &self) { self.vec.clear(); }
} // namespace spec
