/* Configuration used by the monitors (same feature set as /opt/vp/build.sh). */
#define ENABLE_FACTORIZATION 1
#define ENABLE_PLUGIN 1
#define ENABLE_PYTHON 1
#define HAVE_CONFIG_H 1
#define PACKAGE "hnco"
#define PACKAGE_BUGREPORT "none"
#define PACKAGE_NAME "hnco"
#define PACKAGE_STRING "hnco"
#define PACKAGE_TARNAME "hnco"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
