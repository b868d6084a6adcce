#define __MAC_10_6 1060
#define __MAC_OS_X_VERSION_MIN_REQUIRED 1070
