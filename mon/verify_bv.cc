// C12: puts chosen assignments to Formula::verifyModel() of bitvec/.
#include <fstream>
#include <iostream>
#include "Global.h"
#include "Formula.h"
int main(int argc, char **argv) {
  CommandLine *cl = new CommandLine;
  ParseCommandLine(cl, argc, argv);
  Formula *f = new Formula(cl);
  f->BuildFormula(cl);
  std::ifstream in("assign.txt");
  int search, k;
  in >> search >> k;
  int n = (int)f->VARLIST.size() - 1;
  while (k-- > 0) {
    for (int v = 1; v <= n; v++) {
      unsigned long long x;   // the value set as a bit mask
      in >> x;
      f->VARLIST[v]->CURRENT_DOMAIN.reset();
      for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE && d < 64; d++) if (x >> d & 1) f->VARLIST[v]->CURRENT_DOMAIN.set(d);
    }
    bool ok = f->verifyModel();
    std::cout << "\nVERIFY " << (ok ? 1 : 0) << std::endl;
  }
  return 0;
}
