#ifndef COMMON_H
#define COMMON_H
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include "mc.h"
#include "util/cfgfile.h"
#include "util/component.h"

static inline const struct CFG_Option * cfg_opt(const struct CFG_Section * s, const char * name)
{
	for (int i = 0; i < s->n_opt; ++i)
		if (!strcmp(s->options[i].name, name))
			return &s->options[i];
	mc_fail("option %s.%s does not exist", s->name, name);
}
static inline void cfg_int(const struct CFG_Section * s, const char * name, uint32_t v)
{
	*(uint32_t *)cfg_opt(s, name)->var = v;
}
static inline void cfg_bool(const struct CFG_Section * s, const char * name, bool v)
{
	*(bool *)cfg_opt(s, name)->var = v;
}
static inline void cfg_port(const struct CFG_Section * s, const char * name, uint16_t v)
{
	*(uint_fast16_t *)cfg_opt(s, name)->var = v;
}
static inline void cfg_str(const struct CFG_Section * s, const char * name, const char * v)
{
	const struct CFG_Option * o = cfg_opt(s, name);
	snprintf(o->var, o->maxlen, "%s", v);
	if (o->given)
		*o->given = true;
}
/** let the section accept its configuration */
static inline bool cfg_accept(const struct CFG_Section * s)
{
	if (s->fix)
		s->fix(s);
	return !s->check || s->check(s);
}
#endif
