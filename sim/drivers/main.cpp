extern "C" int sim_main(int, char **);
int main(int c, char **v) { return sim_main(c, v); }
