// Force-included into the reference programs: the settings a user edits in the sources become run-time values.
#pragma once
extern "C" double verif_num(const char *);
extern "C" char *verif_str(const char *);
