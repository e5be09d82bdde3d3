module verifmc

go 1.17

require uniswap-simulator v0.0.0

replace uniswap-simulator => /repo
