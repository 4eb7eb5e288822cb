#pragma once
#ifndef MOVEIT_VERSION_MAJOR
#define MOVEIT_VERSION_MAJOR 1
#define MOVEIT_VERSION_MINOR 1
#define MOVEIT_VERSION_PATCH 16
#endif
