#include "cli/imap.cpp"
