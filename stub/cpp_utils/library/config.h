// Copyright 2022 Proyectos y Sistemas de Mantenimiento SL (eProsima).
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

#ifndef _CPP_UTILS_LIBRARY_CONFIG_H_
#define _CPP_UTILS_LIBRARY_CONFIG_H_

#ifndef CPP_UTILS_VERSION_MAJOR
#define CPP_UTILS_VERSION_MAJOR 1
#endif // ifndef CPP_UTILS_VERSION_MAJOR
#ifndef CPP_UTILS_VERSION_MINOR
#define CPP_UTILS_VERSION_MINOR 5
#endif // ifndef CPP_UTILS_VERSION_MINOR
#ifndef CPP_UTILS_VERSION_MICRO
#define CPP_UTILS_VERSION_MICRO 1
#endif // ifndef CPP_UTILS_VERSION_MICRO
#ifndef CPP_UTILS_VERSION_STRING
#define CPP_UTILS_VERSION_STRING "v1.5.1"
#endif // ifndef CPP_UTILS_VERSION_STR
#ifndef CPP_UTILS_COMMIT_HASH
#define CPP_UTILS_COMMIT_HASH "verif"
#endif // ifndef CPP_UTILS_COMMIT_HASH

#endif // ifndef _CPP_UTILS_LIBRARY_CONFIG_H_
