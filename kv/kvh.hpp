#pragma once
#define private public
#define protected public
