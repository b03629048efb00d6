extern "C" int omc_main(int, char **);
int main(int argc, char **argv) { return omc_main(argc, argv); }
