// The real data set class, without its file access (an environment model in the harness).
#define parseFromFile vp_real_parseFromFile
#define readImageOpenCV vp_real_readImageOpenCV
#include <rct_ros_tools/src/data_set.cpp>
