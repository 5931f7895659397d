#include "group.inc"
int main(int argc, char** argv) { return Law<Fe>::run(argc, argv); }
