#include "shared/AgentMsg.h"
AgentMsg::Type a;
StartProcessResult b;
