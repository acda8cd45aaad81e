#include "Caitlyn/__Caitlyn.h"
const Caitlyn::Application* other_unit_initialise(int how, int argc, const char** argv) { return how ? Caitlyn::Application::Initialize(argc, argv) : Caitlyn::Application::Initialise(); }
