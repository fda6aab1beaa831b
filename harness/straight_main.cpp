// The straightener program, built with other flags than its own build would use.
#include "ArcWelderInverseProcessor.cpp"
