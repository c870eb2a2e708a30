#include "w.hpp"
// positive and negative examples for the comparison itself
LIB(double, same, double a, double b) { return a < b ? b - a : a - b; }
REF(double, same, double a, double b) { double d = a - b; return d < 0 ? -d : d; }
LIB(double, differs, double a, double b) { return a * (b + 1); }
REF(double, differs, double a, double b) { return a * b + b; }
LIB(bool, boundary, double a, double b) { return a < b; }
REF(bool, boundary, double a, double b) { return a <= b; }
