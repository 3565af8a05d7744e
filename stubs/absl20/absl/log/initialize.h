#pragma once
namespace absl { void InitializeLog(); }
