#pragma once
namespace tier4_simulation_msgs::msg
{
struct SimulationEvents
{
};
}
