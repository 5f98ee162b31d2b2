#pragma once
#define SYMBOL_EXPORT
#define SYMBOL_IMPORT
