#pragma once
#define OCTAVE_MAJOR_VERSION 8
#define OCTAVE_MINOR_VERSION 4
