// Observes the C++ simulator through its public interface.
// stdin: lines "TM n1 n2 ..."; stdout per line: for each stop "n q p lo w.. ;"
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include "simulator.h"
#include "turing_machine.h"
using namespace busy_beaver;
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string tms; in >> tms;
    std::istringstream tin(tms + "\n");
    std::unique_ptr<TuringMachine> tm(ReadTuringMachine(&tin, ""));
    DirectSimulator sim(*tm);
    long n, lo = 0, hi = 0;
    while (in >> n) {
      while (!sim.is_halted() && sim.step_num() < n) {
        if (n % 2) sim.Step(); else sim.Seek(std::min(n, sim.step_num() + 1 + n % 5));
      }
      // Everything outside |pos| <= steps is blank; widen the window by a margin.
      lo = -std::min<long>(sim.step_num() + 3, 700); hi = -lo;
      std::cout << sim.step_num() << " " << sim.state() << " " << sim.tape().position() << " " << (sim.is_halted() ? 1 : 0)
                << " " << (sim.is_halted() ? sim.last_state() : 0) << " " << (sim.is_halted() ? sim.last_symbol() : 0) << " " << lo;
      for (long p = lo; p <= hi; ++p) std::cout << " " << sim.tape().read(p);
      std::cout << ";";
      if (sim.is_halted()) break;
    }
    std::cout << std::endl;
  }
}
