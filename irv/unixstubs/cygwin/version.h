#pragma once
#define CYGWIN_VERSION_API_MINOR 300
