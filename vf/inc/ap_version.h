#define APRON_VERSION "verification"
