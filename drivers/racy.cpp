// Control of the threaded driver: histories that do share a variable.  "word" uses one per thread, "shared" one of the program.
#include "driver.h"

static int shared = 0;

int main(int argc, char** argv)
{
    return drv::main_loop(argc, argv, [](const std::vector<drv::Op>& ops) {
        int own = 0;
        for (const drv::Op& op : ops)
        {
            int& v = op.name == "shared" ? shared : own;
            for (int k = 0; k < 1000; ++k)
                v = v + 1;
            drv::Ev(op.name).i("v", v).emit();
        }
    });
}
