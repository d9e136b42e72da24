#pragma once
#define HEYOKA_VERSION_MAJOR 7
