#pragma once
#include <heyoka/expression.hpp>
#include <heyoka/llvm_state.hpp>
#include <heyoka/model/vsop2013.hpp>
#include <heyoka/taylor.hpp>
