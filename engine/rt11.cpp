// C++11 variants of library templates that libstdc++ declares extern (their members differ from the C++17 ones)
#include <string>
namespace std { template class basic_string<char>; }
