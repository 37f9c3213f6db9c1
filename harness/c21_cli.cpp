// The command-line program as a function of the harness: its sources are compiled with main renamed.
int genexCliMain() __attribute__((weak));
int genexCliMain(int, char**) __attribute__((weak));
int genexCliMain(int, const char**) __attribute__((weak));

int genexCli()
{
  static char name[] = "genexcli";
  static char* argv[] = {name, nullptr};
  static const char* cargv[] = {"genexcli", nullptr};
  int (*plain)() = &genexCliMain;
  int (*args)(int, char**) = &genexCliMain;
  return plain ? plain() : args ? args(1, argv) : genexCliMain(1, cargv);
}
