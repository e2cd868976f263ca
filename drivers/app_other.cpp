// The second translation unit that includes the public header.
#include <string>
#include <vector>
#include "Caitlyn/Caitlyn"
using namespace Caitlyn;
const Application* otherInit() { return Application::Initialise(); }
const Application* otherInitArgs(int n, const char** v) { return Application::Initialize(n, v); }
std::vector<std::string> otherArgs(const Application* a)
{
    return std::vector<std::string>(a->GetArgs().begin(), a->GetArgs().end());
}
