// The program keeps its main(), under another symbol name, so that the simulator's own main() can call it.
#pragma once
int main(int, char**) __asm__("driver_main");
