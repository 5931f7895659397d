#include "group.inc"
int main(int argc, char** argv) { return Law<F2>::run(argc, argv); }
