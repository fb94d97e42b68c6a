// the system headers first: the namespace below is renamed by a macro
#include <algorithm>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#define blet blet_single
#include REPO_SINGLE
#define EDITION amalgam
#include "P27_driver.h"
