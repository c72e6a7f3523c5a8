// Entry point of the symbolic build (not instrumented).
#include <exception>
#include <string>
#include <typeinfo>
void harness();
extern "C" int __sx_main(int, char **, void (*)());
extern "C" void __sx_uncaught(const char *);
static void guarded() {
  try { harness(); }
  catch (std::exception &e) { __sx_uncaught((std::string(typeid(e).name()) + ": " + e.what()).c_str()); }
  catch (...) { __sx_uncaught("unknown exception"); }
}
int main(int c, char **v) { return __sx_main(c, v, guarded); }
