'''
IceCube detector constants such as the DOM positions are hardcoded here.
'''
import numpy as np

from .dom_noise_rates import dom_noise_rate_dict


# flattened dom coordinates: shape [86*60*3]
x_coords_flat = [-256.14, -521.08, 496.03, -256.14, -521.08, 479.01, -256.14, -521.08, 461.99, -256.14, -521.08, 444.97, -256.14, -521.08, 427.95, -256.14, -521.08, 410.93, -256.14, -521.08, 393.91, -256.14, -521.08, 376.88, -256.14, -521.08, 359.86, -256.14, -521.08, 342.84, -256.14, -521.08, 325.82, -256.14, -521.08, 308.80, -256.14, -521.08, 291.78, -256.14, -521.08, 274.76, -256.14, -521.08, 257.74, -256.14, -521.08, 240.72, -256.14, -521.08, 223.70, -256.14, -521.08, 206.68, -256.14, -521.08, 189.66, -256.14, -521.08, 172.64, -256.14, -521.08, 155.62, -256.14, -521.08, 138.59, -256.14, -521.08, 121.57, -256.14, -521.08, 104.55, -256.14, -521.08, 87.53, -256.14, -521.08, 70.51, -256.14, -521.08, 53.49, -256.14, -521.08, 36.47, -256.14, -521.08, 19.45, -256.14, -521.08, 2.43, -256.14, -521.08, -14.59, -256.14, -521.08, -31.61, -256.14, -521.08, -48.63, -256.14, -521.08, -65.65, -256.14, -521.08, -82.68, -256.14, -521.08, -99.70, -256.14, -521.08, -116.72, -256.14, -521.08, -133.74, -256.14, -521.08, -150.76, -256.14, -521.08, -167.78, -256.14, -521.08, -184.80, -256.14, -521.08, -201.82, -256.14, -521.08, -218.84, -256.14, -521.08, -235.86, -256.14, -521.08, -252.88, -256.14, -521.08, -269.90, -256.14, -521.08, -286.92, -256.14, -521.08, -303.95, -256.14, -521.08, -320.97, -256.14, -521.08, -337.99, -256.14, -521.08, -355.01, -256.14, -521.08, -372.03, -256.14, -521.08, -389.05, -256.14, -521.08, -406.07, -256.14, -521.08, -423.09, -256.14, -521.08, -440.11, -256.14, -521.08, -457.13, -256.14, -521.08, -474.15, -256.14, -521.08, -491.17, -256.14, -521.08, -504.40, -132.80, -501.45, 500.07, -132.80, -501.45, 483.05, -132.80, -501.45, 466.03, -132.80, -501.45, 449.01, -132.80, -501.45, 431.99, -132.80, -501.45, 414.97, -132.80, -501.45, 397.95, -132.80, -501.45, 380.93, -132.80, -501.45, 363.91, -132.80, -501.45, 346.89, -132.80, -501.45, 329.87, -132.80, -501.45, 312.85, -132.80, -501.45, 295.83, -132.80, -501.45, 278.80, -132.80, -501.45, 261.78, -132.80, -501.45, 244.76, -132.80, -501.45, 227.74, -132.80, -501.45, 210.72, -132.80, -501.45, 193.70, -132.80, -501.45, 176.68, -132.80, -501.45, 159.66, -132.80, -501.45, 142.64, -132.80, -501.45, 125.62, -132.80, -501.45, 108.60, -132.80, -501.45, 91.58, -132.80, -501.45, 74.56, -132.80, -501.45, 57.54, -132.80, -501.45, 40.51, -132.80, -501.45, 23.49, -132.80, -501.45, 6.47, -132.80, -501.45, -10.55, -132.80, -501.45, -27.57, -132.80, -501.45, -44.59, -132.80, -501.45, -61.61, -132.80, -501.45, -78.63, -132.80, -501.45, -95.65, -132.80, -501.45, -112.67, -132.80, -501.45, -129.69, -132.80, -501.45, -146.71, -132.80, -501.45, -163.73, -132.80, -501.45, -180.76, -132.80, -501.45, -197.78, -132.80, -501.45, -214.80, -132.80, -501.45, -231.82, -132.80, -501.45, -248.84, -132.80, -501.45, -265.86, -132.80, -501.45, -282.88, -132.80, -501.45, -299.90, -132.80, -501.45, -316.92, -132.80, -501.45, -333.94, -132.80, -501.45, -350.96, -132.80, -501.45, -367.98, -132.80, -501.45, -385.00, -132.80, -501.45, -402.03, -132.80, -501.45, -419.05, -132.80, -501.45, -436.07, -132.80, -501.45, -453.09, -132.80, -501.45, -470.11, -132.80, -501.45, -487.13, -132.80, -501.45, -504.15, -9.13, -481.74, 499.23, -9.13, -481.74, 482.21, -9.13, -481.74, 465.19, -9.13, -481.74, 448.17, -9.13, -481.74, 431.15, -9.13, -481.74, 414.13, -9.13, -481.74, 397.11, -9.13, -481.74, 380.09, -9.13, -481.74, 363.07, -9.13, -481.74, 346.05, -9.13, -481.74, 329.03, -9.13, -481.74, 312.01, -9.13, -481.74, 294.99, -9.13, -481.74, 277.96, -9.13, -481.74, 260.94, -9.13, -481.74, 243.92, -9.13, -481.74, 226.90, -9.13, -481.74, 209.88, -9.13, -481.74, 192.86, -9.13, -481.74, 175.84, -9.13, -481.74, 158.82, -9.13, -481.74, 141.80, -9.13, -481.74, 124.78, -9.13, -481.74, 107.76, -9.13, -481.74, 90.74, -9.13, -481.74, 73.72, -9.13, -481.74, 56.70, -9.13, -481.74, 39.67, -9.13, -481.74, 22.65, -9.13, -481.74, 5.63, -9.13, -481.74, -11.39, -9.13, -481.74, -28.41, -9.13, -481.74, -45.43, -9.13, -481.74, -62.45, -9.13, -481.74, -79.47, -9.13, -481.74, -96.49, -9.13, -481.74, -113.51, -9.13, -481.74, -130.53, -9.13, -481.74, -147.55, -9.13, -481.74, -164.57, -9.13, -481.74, -181.60, -9.13, -481.74, -198.62, -9.13, -481.74, -215.64, -9.13, -481.74, -232.66, -9.13, -481.74, -249.68, -9.13, -481.74, -266.70, -9.13, -481.74, -283.72, -9.13, -481.74, -300.74, -9.13, -481.74, -317.76, -9.13, -481.74, -334.78, -9.13, -481.74, -351.80, -9.13, -481.74, -368.82, -9.13, -481.74, -385.84, -9.13, -481.74, -402.87, -9.13, -481.74, -419.89, -9.13, -481.74, -436.91, -9.13, -481.74, -453.93, -9.13, -481.74, -470.95, -9.13, -481.74, -487.97, -9.13, -481.74, -504.99, 114.39, -461.99, 498.66, 114.39, -461.99, 481.64, 114.39, -461.99, 464.62, 114.39, -461.99, 447.60, 114.39, -461.99, 430.58, 114.39, -461.99, 413.56, 114.39, -461.99, 396.54, 114.39, -461.99, 379.52, 114.39, -461.99, 362.50, 114.39, -461.99, 345.48, 114.39, -461.99, 328.46, 114.39, -461.99, 311.44, 114.39, -461.99, 294.42, 114.39, -461.99, 277.39, 114.39, -461.99, 260.37, 114.39, -461.99, 243.35, 114.39, -461.99, 226.33, 114.39, -461.99, 209.31, 114.39, -461.99, 192.29, 114.39, -461.99, 175.27, 114.39, -461.99, 158.25, 114.39, -461.99, 141.23, 114.39, -461.99, 124.21, 114.39, -461.99, 107.19, 114.39, -461.99, 90.17, 114.39, -461.99, 73.15, 114.39, -461.99, 56.13, 114.39, -461.99, 39.10, 114.39, -461.99, 22.08, 114.39, -461.99, 5.06, 114.39, -461.99, -11.96, 114.39, -461.99, -28.98, 114.39, -461.99, -46.00, 114.39, -461.99, -63.02, 114.39, -461.99, -80.04, 114.39, -461.99, -97.06, 114.39, -461.99, -114.08, 114.39, -461.99, -131.10, 114.39, -461.99, -148.12, 114.39, -461.99, -165.14, 114.39, -461.99, -182.17, 114.39, -461.99, -199.19, 114.39, -461.99, -216.21, 114.39, -461.99, -233.23, 114.39, -461.99, -250.25, 114.39, -461.99, -267.27, 114.39, -461.99, -284.29, 114.39, -461.99, -301.31, 114.39, -461.99, -318.33, 114.39, -461.99, -335.35, 114.39, -461.99, -352.37, 114.39, -461.99, -369.39, 114.39, -461.99, -386.41, 114.39, -461.99, -403.44, 114.39, -461.99, -420.46, 114.39, -461.99, -437.48, 114.39, -461.99, -454.50, 114.39, -461.99, -471.52, 114.39, -461.99, -488.54, 114.39, -461.99, -505.56, 237.78, -442.42, 501.46, 237.78, -442.42, 484.44, 237.78, -442.42, 467.42, 237.78, -442.42, 450.40, 237.78, -442.42, 433.38, 237.78, -442.42, 416.36, 237.78, -442.42, 399.34, 237.78, -442.42, 382.32, 237.78, -442.42, 365.30, 237.78, -442.42, 348.28, 237.78, -442.42, 331.26, 237.78, -442.42, 314.24, 237.78, -442.42, 297.22, 237.78, -442.42, 280.19, 237.78, -442.42, 263.17, 237.78, -442.42, 246.15, 237.78, -442.42, 229.13, 237.78, -442.42, 212.11, 237.78, -442.42, 195.09, 237.78, -442.42, 178.07, 237.78, -442.42, 161.05, 237.78, -442.42, 144.03, 237.78, -442.42, 127.01, 237.78, -442.42, 109.99, 237.78, -442.42, 92.97, 237.78, -442.42, 75.95, 237.78, -442.42, 58.93, 237.78, -442.42, 41.90, 237.78, -442.42, 24.88, 237.78, -442.42, 7.86, 237.78, -442.42, -9.16, 237.78, -442.42, -26.18, 237.78, -442.42, -43.20, 237.78, -442.42, -60.22, 237.78, -442.42, -77.24, 237.78, -442.42, -94.26, 237.78, -442.42, -111.28, 237.78, -442.42, -128.30, 237.78, -442.42, -145.32, 237.78, -442.42, -162.34, 237.78, -442.42, -179.37, 237.78, -442.42, -196.39, 237.78, -442.42, -213.41, 237.78, -442.42, -230.43, 237.78, -442.42, -247.45, 237.78, -442.42, -264.47, 237.78, -442.42, -281.49, 237.78, -442.42, -298.51, 237.78, -442.42, -315.53, 237.78, -442.42, -332.55, 237.78, -442.42, -349.57, 237.78, -442.42, -366.59, 237.78, -442.42, -383.61, 237.78, -442.42, -400.64, 237.78, -442.42, -417.66, 237.78, -442.42, -434.68, 237.78, -442.42, -451.70, 237.78, -442.42, -468.72, 237.78, -442.42, -485.74, 237.78, -442.42, -502.76, 361.00, -422.83, 499.51, 361.00, -422.83, 482.49, 361.00, -422.83, 465.47, 361.00, -422.83, 448.45, 361.00, -422.83, 431.43, 361.00, -422.83, 414.41, 361.00, -422.83, 397.39, 361.00, -422.83, 380.37, 361.00, -422.83, 363.35, 361.00, -422.83, 346.33, 361.00, -422.83, 329.31, 361.00, -422.83, 312.29, 361.00, -422.83, 295.27, 361.00, -422.83, 278.24, 361.00, -422.83, 261.22, 361.00, -422.83, 244.20, 361.00, -422.83, 227.18, 361.00, -422.83, 210.16, 361.00, -422.83, 193.14, 361.00, -422.83, 176.12, 361.00, -422.83, 159.10, 361.00, -422.83, 142.08, 361.00, -422.83, 125.06, 361.00, -422.83, 108.04, 361.00, -422.83, 91.02, 361.00, -422.83, 74.00, 361.00, -422.83, 56.98, 361.00, -422.83, 39.95, 361.00, -422.83, 22.93, 361.00, -422.83, 5.91, 361.00, -422.83, -11.11, 361.00, -422.83, -28.13, 361.00, -422.83, -45.15, 361.00, -422.83, -62.17, 361.00, -422.83, -79.19, 361.00, -422.83, -96.21, 361.00, -422.83, -113.23, 361.00, -422.83, -130.25, 361.00, -422.83, -147.27, 361.00, -422.83, -164.29, 361.00, -422.83, -181.32, 361.00, -422.83, -198.34, 361.00, -422.83, -215.36, 361.00, -422.83, -232.38, 361.00, -422.83, -249.40, 361.00, -422.83, -266.42, 361.00, -422.83, -283.44, 361.00, -422.83, -300.46, 361.00, -422.83, -317.48, 361.00, -422.83, -334.50, 361.00, -422.83, -351.52, 361.00, -422.83, -368.54, 361.00, -422.83, -385.56, 361.00, -422.83, -402.59, 361.00, -422.83, -419.61, 361.00, -422.83, -436.63, 361.00, -422.83, -453.65, 361.00, -422.83, -470.67, 361.00, -422.83, -487.69, 361.00, -422.83, -504.71, -334.80, -424.50, 500.59, -334.80, -424.50, 483.57, -334.80, -424.50, 466.55, -334.80, -424.50, 449.53, -334.80, -424.50, 432.51, -334.80, -424.50, 415.49, -334.80, -424.50, 398.47, -334.80, -424.50, 381.45, -334.80, -424.50, 364.43, -334.80, -424.50, 347.41, -334.80, -424.50, 330.39, -334.80, -424.50, 313.37, -334.80, -424.50, 296.35, -334.80, -424.50, 279.32, -334.80, -424.50, 262.30, -334.80, -424.50, 245.28, -334.80, -424.50, 228.26, -334.80, -424.50, 211.24, -334.80, -424.50, 194.22, -334.80, -424.50, 177.20, -334.80, -424.50, 160.18, -334.80, -424.50, 143.16, -334.80, -424.50, 126.14, -334.80, -424.50, 109.12, -334.80, -424.50, 92.10, -334.80, -424.50, 75.08, -334.80, -424.50, 58.06, -334.80, -424.50, 41.03, -334.80, -424.50, 24.01, -334.80, -424.50, 6.99, -334.80, -424.50, -10.03, -334.80, -424.50, -27.05, -334.80, -424.50, -44.07, -334.80, -424.50, -61.09, -334.80, -424.50, -78.11, -334.80, -424.50, -95.13, -334.80, -424.50, -112.15, -334.80, -424.50, -129.17, -334.80, -424.50, -146.19, -334.80, -424.50, -163.21, -334.80, -424.50, -180.24, -334.80, -424.50, -197.26, -334.80, -424.50, -214.28, -334.80, -424.50, -231.30, -334.80, -424.50, -248.32, -334.80, -424.50, -265.34, -334.80, -424.50, -282.36, -334.80, -424.50, -299.38, -334.80, -424.50, -316.40, -334.80, -424.50, -333.42, -334.80, -424.50, -350.44, -334.80, -424.50, -367.46, -334.80, -424.50, -384.48, -334.80, -424.50, -401.51, -334.80, -424.50, -418.53, -334.80, -424.50, -435.55, -334.80, -424.50, -452.57, -334.80, -424.50, -469.59, -334.80, -424.50, -486.61, -334.80, -424.50, -503.63, -211.35, -404.48, 498.63, -211.35, -404.48, 481.61, -211.35, -404.48, 464.59, -211.35, -404.48, 447.56, -211.35, -404.48, 430.54, -211.35, -404.48, 413.52, -211.35, -404.48, 396.50, -211.35, -404.48, 379.48, -211.35, -404.48, 362.46, -211.35, -404.48, 345.44, -211.35, -404.48, 328.42, -211.35, -404.48, 311.40, -211.35, -404.48, 294.38, -211.35, -404.48, 277.36, -211.35, -404.48, 260.34, -211.35, -404.48, 243.32, -211.35, -404.48, 226.29, -211.35, -404.48, 209.27, -211.35, -404.48, 192.25, -211.35, -404.48, 175.23, -211.35, -404.48, 158.21, -211.35, -404.48, 141.19, -211.35, -404.48, 124.17, -211.35, -404.48, 107.15, -211.35, -404.48, 90.13, -211.35, -404.48, 73.11, -211.35, -404.48, 56.09, -211.35, -404.48, 39.07, -211.35, -404.48, 22.05, -211.35, -404.48, 5.02, -211.35, -404.48, -12.00, -211.35, -404.48, -29.02, -211.35, -404.48, -46.04, -211.35, -404.48, -63.06, -211.35, -404.48, -80.08, -211.35, -404.48, -97.10, -211.35, -404.48, -114.12, -211.35, -404.48, -131.14, -211.35, -404.48, -148.16, -211.35, -404.48, -165.18, -211.35, -404.48, -182.20, -211.35, -404.48, -199.22, -211.35, -404.48, -216.24, -211.35, -404.48, -233.27, -211.35, -404.48, -250.29, -211.35, -404.48, -267.31, -211.35, -404.48, -284.33, -211.35, -404.48, -301.35, -211.35, -404.48, -318.37, -211.35, -404.48, -335.39, -211.35, -404.48, -352.41, -211.35, -404.48, -369.43, -211.35, -404.48, -386.45, -211.35, -404.48, -403.47, -211.35, -404.48, -420.49, -211.35, -404.48, -437.51, -211.35, -404.48, -454.54, -211.35, -404.48, -471.56, -211.35, -404.48, -490.38, -211.35, -404.48, -507.40, -88.05, -384.30, 500.02, -88.05, -384.30, 482.99, -88.05, -384.30, 465.97, -88.05, -384.30, 448.95, -88.05, -384.30, 431.93, -88.05, -384.30, 414.91, -88.05, -384.30, 397.89, -88.05, -384.30, 380.87, -88.05, -384.30, 363.85, -88.05, -384.30, 346.83, -88.05, -384.30, 329.81, -88.05, -384.30, 312.79, -88.05, -384.30, 295.77, -88.05, -384.30, 278.75, -88.05, -384.30, 261.72, -88.05, -384.30, 244.70, -88.05, -384.30, 227.68, -88.05, -384.30, 210.66, -88.05, -384.30, 193.64, -88.05, -384.30, 176.62, -88.05, -384.30, 159.60, -88.05, -384.30, 142.58, -88.05, -384.30, 125.56, -88.05, -384.30, 108.54, -88.05, -384.30, 91.52, -88.05, -384.30, 74.50, -88.05, -384.30, 57.48, -88.05, -384.30, 40.46, -88.05, -384.30, 23.43, -88.05, -384.30, 6.41, -88.05, -384.30, -10.61, -88.05, -384.30, -27.63, -88.05, -384.30, -44.65, -88.05, -384.30, -61.67, -88.05, -384.30, -78.69, -88.05, -384.30, -95.71, -88.05, -384.30, -112.73, -88.05, -384.30, -129.75, -88.05, -384.30, -146.77, -88.05, -384.30, -163.79, -88.05, -384.30, -180.81, -88.05, -384.30, -197.84, -88.05, -384.30, -214.86, -88.05, -384.30, -231.88, -88.05, -384.30, -248.90, -88.05, -384.30, -265.92, -88.05, -384.30, -282.94, -88.05, -384.30, -299.96, -88.05, -384.30, -316.98, -88.05, -384.30, -334.00, -88.05, -384.30, -351.02, -88.05, -384.30, -368.04, -88.05, -384.30, -385.06, -88.05, -384.30, -402.08, -88.05, -384.30, -419.11, -88.05, -384.30, -436.13, -88.05, -384.30, -453.15, -88.05, -384.30, -470.17, -88.05, -384.30, -487.19, -88.05, -384.30, -504.83, 35.54, -364.83, 497.71, 35.54, -364.83, 480.69, 35.54, -364.83, 463.67, 35.54, -364.83, 446.65, 35.54, -364.83, 429.63, 35.54, -364.83, 412.61, 35.54, -364.83, 395.59, 35.54, -364.83, 378.57, 35.54, -364.83, 361.55, 35.54, -364.83, 344.53, 35.54, -364.83, 327.51, 35.54, -364.83, 310.49, 35.54, -364.83, 293.47, 35.54, -364.83, 276.44, 35.54, -364.83, 259.42, 35.54, -364.83, 242.40, 35.54, -364.83, 225.38, 35.54, -364.83, 208.36, 35.54, -364.83, 191.34, 35.54, -364.83, 174.32, 35.54, -364.83, 157.30, 35.54, -364.83, 140.28, 35.54, -364.83, 123.26, 35.54, -364.83, 106.24, 35.54, -364.83, 89.22, 35.54, -364.83, 72.20, 35.54, -364.83, 55.18, 35.54, -364.83, 38.15, 35.54, -364.83, 21.13, 35.54, -364.83, 4.11, 35.54, -364.83, -12.91, 35.54, -364.83, -29.93, 35.54, -364.83, -46.95, 35.54, -364.83, -63.97, 35.54, -364.83, -80.99, 35.54, -364.83, -98.01, 35.54, -364.83, -115.03, 35.54, -364.83, -132.05, 35.54, -364.83, -149.07, 35.54, -364.83, -166.09, 35.54, -364.83, -183.12, 35.54, -364.83, -200.14, 35.54, -364.83, -217.16, 35.54, -364.83, -234.18, 35.54, -364.83, -251.20, 35.54, -364.83, -268.22, 35.54, -364.83, -285.24, 35.54, -364.83, -302.26, 35.54, -364.83, -319.28, 35.54, -364.83, -336.30, 35.54, -364.83, -353.32, 35.54, -364.83, -370.34, 35.54, -364.83, -387.36, 35.54, -364.83, -404.39, 35.54, -364.83, -421.41, 35.54, -364.83, -438.43, 35.54, -364.83, -455.45, 35.54, -364.83, -472.47, 35.54, -364.83, -489.49, 35.54, -364.83, -506.51, 158.94, -345.23, 499.83, 158.94, -345.23, 482.81, 158.94, -345.23, 465.79, 158.94, -345.23, 448.77, 158.94, -345.23, 431.75, 158.94, -345.23, 414.73, 158.94, -345.23, 397.71, 158.94, -345.23, 380.69, 158.94, -345.23, 363.67, 158.94, -345.23, 346.65, 158.94, -345.23, 329.63, 158.94, -345.23, 312.61, 158.94, -345.23, 295.59, 158.94, -345.23, 278.56, 158.94, -345.23, 261.54, 158.94, -345.23, 244.52, 158.94, -345.23, 227.50, 158.94, -345.23, 210.48, 158.94, -345.23, 193.46, 158.94, -345.23, 176.44, 158.94, -345.23, 159.42, 158.94, -345.23, 142.40, 158.94, -345.23, 125.38, 158.94, -345.23, 108.36, 158.94, -345.23, 91.34, 158.94, -345.23, 74.32, 158.94, -345.23, 57.30, 158.94, -345.23, 40.27, 158.94, -345.23, 23.25, 158.94, -345.23, 6.23, 158.94, -345.23, -10.79, 158.94, -345.23, -27.81, 158.94, -345.23, -44.83, 158.94, -345.23, -61.85, 158.94, -345.23, -78.87, 158.94, -345.23, -95.89, 158.94, -345.23, -112.91, 158.94, -345.23, -129.93, 158.94, -345.23, -146.95, 158.94, -345.23, -163.97, 158.94, -345.23, -181.00, 158.94, -345.23, -198.02, 158.94, -345.23, -215.04, 158.94, -345.23, -232.06, 158.94, -345.23, -249.08, 158.94, -345.23, -266.10, 158.94, -345.23, -283.12, 158.94, -345.23, -300.14, 158.94, -345.23, -317.16, 158.94, -345.23, -334.18, 158.94, -345.23, -351.20, 158.94, -345.23, -368.22, 158.94, -345.23, -385.24, 158.94, -345.23, -402.27, 158.94, -345.23, -419.29, 158.94, -345.23, -436.31, 158.94, -345.23, -453.33, 158.94, -345.23, -470.35, 158.94, -345.23, -487.37, 158.94, -345.23, -504.39, 282.18, -325.74, 498.44, 282.18, -325.74, 481.42, 282.18, -325.74, 464.40, 282.18, -325.74, 447.38, 282.18, -325.74, 430.36, 282.18, -325.74, 413.34, 282.18, -325.74, 396.32, 282.18, -325.74, 379.30, 282.18, -325.74, 362.28, 282.18, -325.74, 345.26, 282.18, -325.74, 328.24, 282.18, -325.74, 311.22, 282.18, -325.74, 294.20, 282.18, -325.74, 277.17, 282.18, -325.74, 260.15, 282.18, -325.74, 243.13, 282.18, -325.74, 226.11, 282.18, -325.74, 209.09, 282.18, -325.74, 192.07, 282.18, -325.74, 175.05, 282.18, -325.74, 158.03, 282.18, -325.74, 141.01, 282.18, -325.74, 123.99, 282.18, -325.74, 106.97, 282.18, -325.74, 89.95, 282.18, -325.74, 72.93, 282.18, -325.74, 55.91, 282.18, -325.74, 38.88, 282.18, -325.74, 21.86, 282.18, -325.74, 4.84, 282.18, -325.74, -12.18, 282.18, -325.74, -29.20, 282.18, -325.74, -46.22, 282.18, -325.74, -63.24, 282.18, -325.74, -80.26, 282.18, -325.74, -97.28, 282.18, -325.74, -114.30, 282.18, -325.74, -131.32, 282.18, -325.74, -148.34, 282.18, -325.74, -165.36, 282.18, -325.74, -182.39, 282.18, -325.74, -199.41, 282.18, -325.74, -216.43, 282.18, -325.74, -233.45, 282.18, -325.74, -250.47, 282.18, -325.74, -267.49, 282.18, -325.74, -284.51, 282.18, -325.74, -301.53, 282.18, -325.74, -318.55, 282.18, -325.74, -335.57, 282.18, -325.74, -352.59, 282.18, -325.74, -369.61, 282.18, -325.74, -386.63, 282.18, -325.74, -403.66, 282.18, -325.74, -420.68, 282.18, -325.74, -437.70, 282.18, -325.74, -454.72, 282.18, -325.74, -471.74, 282.18, -325.74, -488.76, 282.18, -325.74, -505.78, 405.83, -306.38, 495.13, 405.83, -306.38, 478.11, 405.83, -306.38, 461.09, 405.83, -306.38, 444.07, 405.83, -306.38, 427.05, 405.83, -306.38, 410.03, 405.83, -306.38, 393.01, 405.83, -306.38, 375.99, 405.83, -306.38, 358.97, 405.83, -306.38, 341.95, 405.83, -306.38, 324.93, 405.83, -306.38, 307.91, 405.83, -306.38, 290.89, 405.83, -306.38, 273.86, 405.83, -306.38, 256.84, 405.83, -306.38, 239.82, 405.83, -306.38, 222.80, 405.83, -306.38, 205.78, 405.83, -306.38, 188.76, 405.83, -306.38, 171.74, 405.83, -306.38, 154.72, 405.83, -306.38, 137.70, 405.83, -306.38, 120.68, 405.83, -306.38, 103.66, 405.83, -306.38, 86.64, 405.83, -306.38, 69.62, 405.83, -306.38, 52.60, 405.83, -306.38, 35.57, 405.83, -306.38, 18.55, 405.83, -306.38, 1.53, 405.83, -306.38, -15.49, 405.83, -306.38, -32.51, 405.83, -306.38, -49.53, 405.83, -306.38, -66.55, 405.83, -306.38, -83.57, 405.83, -306.38, -100.59, 405.83, -306.38, -117.61, 405.83, -306.38, -134.63, 405.83, -306.38, -151.65, 405.83, -306.38, -168.67, 405.83, -306.38, -185.70, 405.83, -306.38, -202.72, 405.83, -306.38, -219.74, 405.83, -306.38, -236.76, 405.83, -306.38, -253.78, 405.83, -306.38, -270.80, 405.83, -306.38, -287.82, 405.83, -306.38, -304.84, 405.83, -306.38, -321.86, 405.83, -306.38, -338.88, 405.83, -306.38, -355.90, 405.83, -306.38, -372.92, 405.83, -306.38, -389.94, 405.83, -306.38, -406.97, 405.83, -306.38, -423.99, 405.83, -306.38, -441.01, 405.83, -306.38, -458.03, 405.83, -306.38, -475.05, 405.83, -306.38, -492.07, 405.83, -306.38, -509.09, -413.46, -327.27, 499.59, -413.46, -327.27, 482.57, -413.46, -327.27, 465.55, -413.46, -327.27, 448.53, -413.46, -327.27, 431.51, -413.46, -327.27, 414.49, -413.46, -327.27, 397.47, -413.46, -327.27, 380.45, -413.46, -327.27, 363.43, -413.46, -327.27, 346.41, -413.46, -327.27, 329.39, -413.46, -327.27, 312.37, -413.46, -327.27, 295.35, -413.46, -327.27, 278.32, -413.46, -327.27, 261.30, -413.46, -327.27, 244.28, -413.46, -327.27, 227.26, -413.46, -327.27, 210.24, -413.46, -327.27, 193.22, -413.46, -327.27, 176.20, -413.46, -327.27, 159.18, -413.46, -327.27, 142.16, -413.46, -327.27, 125.14, -413.46, -327.27, 108.12, -413.46, -327.27, 91.10, -413.46, -327.27, 74.08, -413.46, -327.27, 57.06, -413.46, -327.27, 40.03, -413.46, -327.27, 23.01, -413.46, -327.27, 5.99, -413.46, -327.27, -11.03, -413.46, -327.27, -28.05, -413.46, -327.27, -45.07, -413.46, -327.27, -62.09, -413.46, -327.27, -79.11, -413.46, -327.27, -96.13, -413.46, -327.27, -113.15, -413.46, -327.27, -130.17, -413.46, -327.27, -147.19, -413.46, -327.27, -164.21, -413.46, -327.27, -181.24, -413.46, -327.27, -198.26, -413.46, -327.27, -215.28, -413.46, -327.27, -232.30, -413.46, -327.27, -249.32, -413.46, -327.27, -266.34, -413.46, -327.27, -283.36, -413.46, -327.27, -300.38, -413.46, -327.27, -317.40, -413.46, -327.27, -334.42, -413.46, -327.27, -351.44, -413.46, -327.27, -368.46, -413.46, -327.27, -385.48, -413.46, -327.27, -402.51, -413.46, -327.27, -419.53, -413.46, -327.27, -436.55, -413.46, -327.27, -453.57, -413.46, -327.27, -470.59, -413.46, -327.27, -487.61, -413.46, -327.27, -504.63, -290.66, -307.38, 504.02, -290.66, -307.38, 487.00, -290.66, -307.38, 469.98, -290.66, -307.38, 452.96, -290.66, -307.38, 435.94, -290.66, -307.38, 418.92, -290.66, -307.38, 401.90, -290.66, -307.38, 384.88, -290.66, -307.38, 367.86, -290.66, -307.38, 350.84, -290.66, -307.38, 333.82, -290.66, -307.38, 316.80, -290.66, -307.38, 299.78, -290.66, -307.38, 282.75, -290.66, -307.38, 265.73, -290.66, -307.38, 248.71, -290.66, -307.38, 231.69, -290.66, -307.38, 214.67, -290.66, -307.38, 197.65, -290.66, -307.38, 180.63, -290.66, -307.38, 163.61, -290.66, -307.38, 146.59, -290.66, -307.38, 129.57, -290.66, -307.38, 112.55, -290.66, -307.38, 95.65, -290.66, -307.38, 78.63, -290.66, -307.38, 61.61, -290.66, -307.38, 44.58, -290.66, -307.38, 27.56, -290.66, -307.38, 10.54, -290.66, -307.38, -6.48, -290.66, -307.38, -23.50, -290.66, -307.38, -40.52, -290.66, -307.38, -57.54, -290.66, -307.38, -74.56, -290.66, -307.38, -91.58, -290.66, -307.38, -108.60, -290.66, -307.38, -125.62, -290.66, -307.38, -142.64, -290.66, -307.38, -159.66, -290.66, -307.38, -176.69, -290.66, -307.38, -193.71, -290.66, -307.38, -210.73, -290.66, -307.38, -227.75, -290.66, -307.38, -244.77, -290.66, -307.38, -261.79, -290.66, -307.38, -278.81, -290.66, -307.38, -295.83, -290.66, -307.38, -312.85, -290.66, -307.38, -329.87, -290.66, -307.38, -346.89, -290.66, -307.38, -363.91, -290.66, -307.38, -380.93, -290.66, -307.38, -397.96, -290.66, -307.38, -414.98, -290.66, -307.38, -432.00, -290.66, -307.38, -449.02, -290.66, -307.38, -466.04, -290.66, -307.38, -483.06, -290.66, -307.38, -500.08, -166.40, -287.79, 497.78, -166.40, -287.79, 480.51, -166.40, -287.79, 463.49, -166.40, -287.79, 446.47, -166.40, -287.79, 429.45, -166.40, -287.79, 412.43, -166.40, -287.79, 395.41, -166.40, -287.79, 378.39, -166.40, -287.79, 361.37, -166.40, -287.79, 344.35, -166.40, -287.79, 327.33, -166.40, -287.79, 310.31, -166.40, -287.79, 293.29, -166.40, -287.79, 276.26, -166.40, -287.79, 259.24, -166.40, -287.79, 242.22, -166.40, -287.79, 225.20, -166.40, -287.79, 208.30, -166.40, -287.79, 191.28, -166.40, -287.79, 174.26, -166.40, -287.79, 157.24, -166.40, -287.79, 140.22, -166.40, -287.79, 123.20, -166.40, -287.79, 106.18, -166.40, -287.79, 89.16, -166.40, -287.79, 72.14, -166.40, -287.79, 55.11, -166.40, -287.79, 38.09, -166.40, -287.79, 21.07, -166.40, -287.79, 4.05, -166.40, -287.79, -12.97, -166.40, -287.79, -29.99, -166.40, -287.79, -47.01, -166.40, -287.79, -64.03, -166.40, -287.79, -81.05, -166.40, -287.79, -98.07, -166.40, -287.79, -115.09, -166.40, -287.79, -132.11, -166.40, -287.79, -149.13, -166.40, -287.79, -166.15, -166.40, -287.79, -183.18, -166.40, -287.79, -200.20, -166.40, -287.79, -217.22, -166.40, -287.79, -234.24, -166.40, -287.79, -251.26, -166.40, -287.79, -268.28, -166.40, -287.79, -285.30, -166.40, -287.79, -302.32, -166.40, -287.79, -319.34, -166.40, -287.79, -336.36, -166.40, -287.79, -353.38, -166.40, -287.79, -370.40, -166.40, -287.79, -387.29, -166.40, -287.79, -404.32, -166.40, -287.79, -421.34, -166.40, -287.79, -438.36, -166.40, -287.79, -455.38, -166.40, -287.79, -472.40, -166.40, -287.79, -489.42, -166.40, -287.79, -506.44, -43.27, -267.52, 500.43, -43.27, -267.52, 483.10, -43.27, -267.52, 466.08, -43.27, -267.52, 449.06, -43.27, -267.52, 432.04, -43.27, -267.52, 415.02, -43.27, -267.52, 398.00, -43.27, -267.52, 380.98, -43.27, -267.52, 363.96, -43.27, -267.52, 346.94, -43.27, -267.52, 329.92, -43.27, -267.52, 312.90, -43.27, -267.52, 295.88, -43.27, -267.52, 278.85, -43.27, -267.52, 261.83, -43.27, -267.52, 244.81, -43.27, -267.52, 227.79, -43.27, -267.52, 210.77, -43.27, -267.52, 193.75, -43.27, -267.52, 176.73, -43.27, -267.52, 159.71, -43.27, -267.52, 142.69, -43.27, -267.52, 125.67, -43.27, -267.52, 108.65, -43.27, -267.52, 91.63, -43.27, -267.52, 74.61, -43.27, -267.52, 57.59, -43.27, -267.52, 40.56, -43.27, -267.52, 23.54, -43.27, -267.52, 6.52, -43.27, -267.52, -10.50, -43.27, -267.52, -27.52, -43.27, -267.52, -44.54, -43.27, -267.52, -61.56, -43.27, -267.52, -78.58, -43.27, -267.52, -95.60, -43.27, -267.52, -112.62, -43.27, -267.52, -129.64, -43.27, -267.52, -146.66, -43.27, -267.52, -163.68, -43.27, -267.52, -180.71, -43.27, -267.52, -197.73, -43.27, -267.52, -214.75, -43.27, -267.52, -231.77, -43.27, -267.52, -248.79, -43.27, -267.52, -265.81, -43.27, -267.52, -282.83, -43.27, -267.52, -299.85, -43.27, -267.52, -316.87, -43.27, -267.52, -333.89, -43.27, -267.52, -350.91, -43.27, -267.52, -367.93, -43.27, -267.52, -384.95, -43.27, -267.52, -401.98, -43.27, -267.52, -419.00, -43.27, -267.52, -436.02, -43.27, -267.52, -453.04, -43.27, -267.52, -470.06, -43.27, -267.52, -487.08, -43.27, -267.52, -504.10, 79.41, -248.24, 498.90, 79.41, -248.24, 481.88, 79.41, -248.24, 464.86, 79.41, -248.24, 447.84, 79.41, -248.24, 430.82, 79.41, -248.24, 413.80, 79.41, -248.24, 396.78, 79.41, -248.24, 379.76, 79.41, -248.24, 362.74, 79.41, -248.24, 345.72, 79.41, -248.24, 328.70, 79.41, -248.24, 311.68, 79.41, -248.24, 294.66, 79.41, -248.24, 277.63, 79.41, -248.24, 260.61, 79.41, -248.24, 243.59, 79.41, -248.24, 226.57, 79.41, -248.24, 209.55, 79.41, -248.24, 192.53, 79.41, -248.24, 175.51, 79.41, -248.24, 158.49, 79.41, -248.24, 141.47, 79.41, -248.24, 124.45, 79.41, -248.24, 107.43, 79.41, -248.24, 90.41, 79.41, -248.24, 73.39, 79.41, -248.24, 56.37, 79.41, -248.24, 39.34, 79.41, -248.24, 22.32, 79.41, -248.24, 5.30, 79.41, -248.24, -11.72, 79.41, -248.24, -28.74, 79.41, -248.24, -45.76, 79.41, -248.24, -62.78, 79.41, -248.24, -79.80, 79.41, -248.24, -96.82, 79.41, -248.24, -113.84, 79.41, -248.24, -130.86, 79.41, -248.24, -147.88, 79.41, -248.24, -164.90, 79.41, -248.24, -181.93, 79.41, -248.24, -198.95, 79.41, -248.24, -215.97, 79.41, -248.24, -232.99, 79.41, -248.24, -250.01, 79.41, -248.24, -267.03, 79.41, -248.24, -284.05, 79.41, -248.24, -301.07, 79.41, -248.24, -318.09, 79.41, -248.24, -335.11, 79.41, -248.24, -352.13, 79.41, -248.24, -369.15, 79.41, -248.24, -386.17, 79.41, -248.24, -403.20, 79.41, -248.24, -420.22, 79.41, -248.24, -437.24, 79.41, -248.24, -454.26, 79.41, -248.24, -471.28, 79.41, -248.24, -488.30, 79.41, -248.24, -505.32, 210.47, -209.77, 496.94, 210.47, -209.77, 479.92, 210.47, -209.77, 462.90, 210.47, -209.77, 445.88, 210.47, -209.77, 428.86, 210.47, -209.77, 411.84, 210.47, -209.77, 394.82, 210.47, -209.77, 377.80, 210.47, -209.77, 360.78, 210.47, -209.77, 343.76, 210.47, -209.77, 326.74, 210.47, -209.77, 309.72, 210.47, -209.77, 292.70, 210.47, -209.77, 275.67, 210.47, -209.77, 258.65, 210.47, -209.77, 241.63, 210.47, -209.77, 224.61, 210.47, -209.77, 207.59, 210.47, -209.77, 190.57, 210.47, -209.77, 173.55, 210.47, -209.77, 156.53, 210.47, -209.77, 139.51, 210.47, -209.77, 122.49, 210.47, -209.77, 105.47, 210.47, -209.77, 88.45, 210.47, -209.77, 71.43, 210.47, -209.77, 54.41, 210.47, -209.77, 37.38, 210.47, -209.77, 20.36, 210.47, -209.77, 3.34, 210.47, -209.77, -13.68, 210.47, -209.77, -30.70, 210.47, -209.77, -47.72, 210.47, -209.77, -64.74, 210.47, -209.77, -81.76, 210.47, -209.77, -98.78, 210.47, -209.77, -115.80, 210.47, -209.77, -132.82, 210.47, -209.77, -149.84, 210.47, -209.77, -166.86, 210.47, -209.77, -183.89, 210.47, -209.77, -200.91, 210.47, -209.77, -217.93, 210.47, -209.77, -234.95, 210.47, -209.77, -251.97, 210.47, -209.77, -268.99, 210.47, -209.77, -286.01, 210.47, -209.77, -303.03, 210.47, -209.77, -320.05, 210.47, -209.77, -337.07, 210.47, -209.77, -354.09, 210.47, -209.77, -371.11, 210.47, -209.77, -388.13, 210.47, -209.77, -405.16, 210.47, -209.77, -422.18, 210.47, -209.77, -439.20, 210.47, -209.77, -456.22, 210.47, -209.77, -473.24, 210.47, -209.77, -490.26, 210.47, -209.77, -507.28, 326.85, -209.07, 498.42, 326.85, -209.07, 481.40, 326.85, -209.07, 464.38, 326.85, -209.07, 447.36, 326.85, -209.07, 430.34, 326.85, -209.07, 413.32, 326.85, -209.07, 396.30, 326.85, -209.07, 379.28, 326.85, -209.07, 362.26, 326.85, -209.07, 345.24, 326.85, -209.07, 328.22, 326.85, -209.07, 311.20, 326.85, -209.07, 294.18, 326.85, -209.07, 277.15, 326.85, -209.07, 260.13, 326.85, -209.07, 243.11, 326.85, -209.07, 226.09, 326.85, -209.07, 209.07, 326.85, -209.07, 192.05, 326.85, -209.07, 175.03, 326.85, -209.07, 158.01, 326.85, -209.07, 140.99, 326.85, -209.07, 123.97, 326.85, -209.07, 106.95, 326.85, -209.07, 89.93, 326.85, -209.07, 72.91, 326.85, -209.07, 55.89, 326.85, -209.07, 38.86, 326.85, -209.07, 21.84, 326.85, -209.07, 4.82, 326.85, -209.07, -12.20, 326.85, -209.07, -29.22, 326.85, -209.07, -46.24, 326.85, -209.07, -63.26, 326.85, -209.07, -80.28, 326.85, -209.07, -97.30, 326.85, -209.07, -114.32, 326.85, -209.07, -131.34, 326.85, -209.07, -148.36, 326.85, -209.07, -165.38, 326.85, -209.07, -182.41, 326.85, -209.07, -199.43, 326.85, -209.07, -216.45, 326.85, -209.07, -233.47, 326.85, -209.07, -250.49, 326.85, -209.07, -267.51, 326.85, -209.07, -284.53, 326.85, -209.07, -301.55, 326.85, -209.07, -318.57, 326.85, -209.07, -335.59, 326.85, -209.07, -352.61, 326.85, -209.07, -369.63, 326.85, -209.07, -386.65, 326.85, -209.07, -403.68, 326.85, -209.07, -420.70, 326.85, -209.07, -437.72, 326.85, -209.07, -454.74, 326.85, -209.07, -471.76, 326.85, -209.07, -488.78, 326.85, -209.07, -505.80, 443.60, -194.16, 516.67, 443.60, -194.12, 499.65, 443.63, -194.08, 482.63, 443.66, -194.04, 465.61, 443.70, -194.02, 448.59, 443.75, -194.01, 431.57, 443.80, -194.01, 414.55, 443.85, -194.02, 397.53, 443.89, -194.04, 380.51, 443.93, -194.08, 363.49, 443.96, -194.12, 346.47, 443.96, -194.17, 329.45, 443.95, -194.22, 312.43, 443.92, -194.26, 295.40, 443.88, -194.29, 278.38, 443.84, -194.31, 261.36, 443.80, -194.31, 244.34, 443.75, -194.29, 227.32, 443.72, -194.26, 210.30, 443.72, -194.21, 193.28, 443.75, -194.17, 176.26, 443.80, -194.16, 159.24, 443.85, -194.18, 142.22, 443.88, -194.22, 125.20, 443.92, -194.25, 108.18, 443.95, -194.29, 91.16, 443.96, -194.34, 74.14, 443.96, -194.38, 57.11, 443.94, -194.43, 40.09, 443.92, -194.47, 23.07, 443.89, -194.50, 6.05, 443.85, -194.52, -10.97, 443.80, -194.52, -27.99, 443.75, -194.52, -45.01, 443.71, -194.52, -62.03, 443.66, -194.52, -79.05, 443.62, -194.51, -96.07, 443.58, -194.49, -113.09, 443.54, -194.46, -130.11, 443.50, -194.43, -147.13, 443.47, -194.40, -164.16, 443.44, -194.35, -181.18, 443.43, -194.30, -198.20, 443.43, -194.25, -215.22, 443.46, -194.21, -232.24, 443.50, -194.18, -249.26, 443.55, -194.16, -266.28, 443.59, -194.18, -281.30, 443.65, -194.20, -300.32, 443.68, -194.23, -315.34, 443.72, -194.27, -334.36, 443.75, -194.31, -351.38, 443.78, -194.34, -368.40, 443.81, -194.38, -385.43, 443.85, -194.42, -402.45, 443.89, -194.44, -417.46, 443.93, -194.47, -436.49, 443.96, -194.49, -451.51, 444.00, -194.48, -470.53, 444.05, -194.46, -487.55, -492.43, -230.16, 497.60, -492.43, -230.16, 480.58, -492.43, -230.16, 463.56, -492.43, -230.16, 446.54, -492.43, -230.16, 429.52, -492.43, -230.16, 412.50, -492.43, -230.16, 395.48, -492.43, -230.16, 378.46, -492.43, -230.16, 361.44, -492.43, -230.16, 344.42, -492.43, -230.16, 327.40, -492.43, -230.16, 310.38, -492.43, -230.16, 293.36, -492.43, -230.16, 276.33, -492.43, -230.16, 259.31, -492.43, -230.16, 242.29, -492.43, -230.16, 225.27, -492.43, -230.16, 208.25, -492.43, -230.16, 191.23, -492.43, -230.16, 174.21, -492.43, -230.16, 157.19, -492.43, -230.16, 140.17, -492.43, -230.16, 123.15, -492.43, -230.16, 106.13, -492.43, -230.16, 89.11, -492.43, -230.16, 72.09, -492.43, -230.16, 55.07, -492.43, -230.16, 38.04, -492.43, -230.16, 21.02, -492.43, -230.16, 4.00, -492.43, -230.16, -13.02, -492.43, -230.16, -30.04, -492.43, -230.16, -47.06, -492.43, -230.16, -64.08, -492.43, -230.16, -81.10, -492.43, -230.16, -98.12, -492.43, -230.16, -115.14, -492.43, -230.16, -132.16, -492.43, -230.16, -149.18, -492.43, -230.16, -166.20, -492.43, -230.16, -183.23, -492.43, -230.16, -200.25, -492.43, -230.16, -217.27, -492.43, -230.16, -234.29, -492.43, -230.16, -251.31, -492.43, -230.16, -268.33, -492.43, -230.16, -285.35, -492.43, -230.16, -302.37, -492.43, -230.16, -319.39, -492.43, -230.16, -336.41, -492.43, -230.16, -353.43, -492.43, -230.16, -370.45, -492.43, -230.16, -387.47, -492.43, -230.16, -404.50, -492.43, -230.16, -421.52, -492.43, -230.16, -438.54, -492.43, -230.16, -455.56, -492.43, -230.16, -472.58, -492.43, -230.16, -489.60, -492.43, -230.16, -506.62, -368.93, -210.23, 500.53, -368.93, -210.23, 483.51, -368.93, -210.23, 466.49, -368.93, -210.23, 449.47, -368.93, -210.23, 432.45, -368.93, -210.23, 415.43, -368.93, -210.23, 398.41, -368.93, -210.23, 381.39, -368.93, -210.23, 364.37, -368.93, -210.23, 347.35, -368.93, -210.23, 330.33, -368.93, -210.23, 313.31, -368.93, -210.23, 296.29, -368.93, -210.23, 279.26, -368.93, -210.23, 262.24, -368.93, -210.23, 245.22, -368.93, -210.23, 228.20, -368.93, -210.23, 211.18, -368.93, -210.23, 194.16, -368.93, -210.23, 177.14, -368.93, -210.23, 160.12, -368.93, -210.23, 143.10, -368.93, -210.23, 126.08, -368.93, -210.23, 109.06, -368.93, -210.23, 92.04, -368.93, -210.23, 75.02, -368.93, -210.23, 58.00, -368.93, -210.23, 40.97, -368.93, -210.23, 23.95, -368.93, -210.23, 6.93, -368.93, -210.23, -10.09, -368.93, -210.23, -27.11, -368.93, -210.23, -44.13, -368.93, -210.23, -61.15, -368.93, -210.23, -78.17, -368.93, -210.23, -95.19, -368.93, -210.23, -112.21, -368.93, -210.23, -129.23, -368.93, -210.23, -146.25, -368.93, -210.23, -163.27, -368.93, -210.23, -180.30, -368.93, -210.23, -197.32, -368.93, -210.23, -214.34, -368.93, -210.23, -231.36, -368.93, -210.23, -248.38, -368.93, -210.23, -265.40, -368.93, -210.23, -282.42, -368.93, -210.23, -299.44, -368.93, -210.23, -316.46, -368.93, -210.23, -333.48, -368.93, -210.23, -350.50, -368.93, -210.23, -367.52, -368.93, -210.23, -384.54, -368.93, -210.23, -401.57, -368.93, -210.23, -418.59, -368.93, -210.23, -435.61, -368.93, -210.23, -452.63, -368.93, -210.23, -469.65, -368.93, -210.23, -486.67, -368.93, -210.23, -503.69, -245.65, -190.49, 501.48, -245.65, -190.49, 484.46, -245.65, -190.49, 467.44, -245.65, -190.49, 450.42, -245.65, -190.49, 433.40, -245.65, -190.49, 416.38, -245.65, -190.49, 399.36, -245.65, -190.49, 382.34, -245.65, -190.49, 365.32, -245.65, -190.49, 348.30, -245.65, -190.49, 331.28, -245.65, -190.49, 314.26, -245.65, -190.49, 297.23, -245.65, -190.49, 280.21, -245.65, -190.49, 263.19, -245.65, -190.49, 246.17, -245.65, -190.49, 229.15, -245.65, -190.49, 212.13, -245.65, -190.49, 195.11, -245.65, -190.49, 178.09, -245.65, -190.49, 161.07, -245.65, -190.49, 144.05, -245.65, -190.49, 127.03, -245.65, -190.49, 110.01, -245.65, -190.49, 92.99, -245.65, -190.49, 75.96, -245.65, -190.49, 58.94, -245.65, -190.49, 41.92, -245.65, -190.49, 24.90, -245.65, -190.49, 7.88, -245.65, -190.49, -9.14, -245.65, -190.49, -26.03, -245.65, -190.49, -42.93, -245.65, -190.49, -59.95, -245.65, -190.49, -76.97, -245.65, -190.49, -93.99, -245.65, -190.49, -110.88, -245.65, -190.49, -127.90, -245.65, -190.49, -144.92, -245.65, -190.49, -161.95, -245.65, -190.49, -178.97, -245.65, -190.49, -195.99, -245.65, -190.49, -213.01, -245.65, -190.49, -230.03, -245.65, -190.49, -247.05, -245.65, -190.49, -264.07, -245.65, -190.49, -281.09, -245.65, -190.49, -298.11, -245.65, -190.49, -315.13, -245.65, -190.49, -332.15, -245.65, -190.49, -349.17, -245.65, -190.49, -366.19, -245.65, -190.49, -383.22, -245.65, -190.49, -400.24, -245.65, -190.49, -417.26, -245.65, -190.49, -434.15, -245.65, -190.49, -451.07, -245.65, -190.49, -467.97, -245.65, -190.49, -484.99, -245.65, -190.49, -502.01, -121.77, -171.03, 502.27, -121.77, -171.03, 485.25, -121.77, -171.03, 468.23, -121.77, -171.03, 451.21, -121.77, -171.03, 434.19, -121.77, -171.03, 417.17, -121.77, -171.03, 400.15, -121.77, -171.03, 383.13, -121.77, -171.03, 366.11, -121.77, -171.03, 349.09, -121.77, -171.03, 332.07, -121.77, -171.03, 315.05, -121.77, -171.03, 298.03, -121.77, -171.03, 281.00, -121.77, -171.03, 263.98, -121.77, -171.03, 246.96, -121.77, -171.03, 229.94, -121.77, -171.03, 212.92, -121.77, -171.03, 195.90, -121.77, -171.03, 178.88, -121.77, -171.03, 161.86, -121.77, -171.03, 144.84, -121.77, -171.03, 127.82, -121.77, -171.03, 110.80, -121.77, -171.03, 93.78, -121.77, -171.03, 76.76, -121.77, -171.03, 59.73, -121.77, -171.03, 42.71, -121.77, -171.03, 25.69, -121.77, -171.03, 8.67, -121.77, -171.03, -8.35, -121.77, -171.03, -25.37, -121.77, -171.03, -42.39, -121.77, -171.03, -59.41, -121.77, -171.03, -76.43, -121.77, -171.03, -93.45, -121.77, -171.03, -110.47, -121.77, -171.03, -127.49, -121.77, -171.03, -144.51, -121.77, -171.03, -161.54, -121.77, -171.03, -178.56, -121.77, -171.03, -195.58, -121.77, -171.03, -212.60, -121.77, -171.03, -229.62, -121.77, -171.03, -246.64, -121.77, -171.03, -263.66, -121.77, -171.03, -280.68, -121.77, -171.03, -297.57, -121.77, -171.03, -314.59, -121.77, -171.03, -331.49, -121.77, -171.03, -348.51, -121.77, -171.03, -365.53, -121.77, -171.03, -382.55, -121.77, -171.03, -399.58, -121.77, -171.03, -416.60, -121.77, -171.03, -433.48, -121.77, -171.03, -450.50, -121.77, -171.03, -467.52, -121.77, -171.03, -484.54, -121.77, -171.03, -501.56, 1.71, -150.63, 497.25, 1.71, -150.63, 480.23, 1.71, -150.63, 463.21, 1.71, -150.63, 446.19, 1.71, -150.63, 429.17, 1.71, -150.63, 412.15, 1.71, -150.63, 395.13, 1.71, -150.63, 378.11, 1.71, -150.63, 361.09, 1.71, -150.63, 344.07, 1.71, -150.63, 327.05, 1.71, -150.63, 310.03, 1.71, -150.63, 293.01, 1.71, -150.63, 275.98, 1.71, -150.63, 258.96, 1.71, -150.63, 241.94, 1.71, -150.63, 224.92, 1.71, -150.63, 207.90, 1.71, -150.63, 190.88, 1.71, -150.63, 173.86, 1.71, -150.63, 156.84, 1.71, -150.63, 139.82, 1.71, -150.63, 122.80, 1.71, -150.63, 105.78, 1.71, -150.63, 88.76, 1.71, -150.63, 71.74, 1.71, -150.63, 54.72, 1.71, -150.63, 37.69, 1.71, -150.63, 20.67, 1.71, -150.63, 3.65, 1.71, -150.63, -13.37, 1.71, -150.63, -30.39, 1.71, -150.63, -47.41, 1.71, -150.63, -64.43, 1.71, -150.63, -81.45, 1.71, -150.63, -98.47, 1.71, -150.63, -115.49, 1.71, -150.63, -132.51, 1.71, -150.63, -149.53, 1.71, -150.63, -166.55, 1.71, -150.63, -183.58, 1.71, -150.63, -200.60, 1.71, -150.63, -217.62, 1.71, -150.63, -234.64, 1.71, -150.63, -251.66, 1.71, -150.63, -268.68, 1.71, -150.63, -285.70, 1.71, -150.63, -302.72, 1.71, -150.63, -319.74, 1.71, -150.63, -336.76, 1.71, -150.63, -353.78, 1.71, -150.63, -370.80, 1.71, -150.63, -387.82, 1.71, -150.63, -404.85, 1.71, -150.63, -421.87, 1.71, -150.63, -438.89, 1.71, -150.63, -455.91, 1.71, -150.63, -472.93, 1.71, -150.63, -489.95, 1.71, -150.63, -506.97, 124.97, -131.25, 493.65, 124.97, -131.25, 476.63, 124.97, -131.25, 459.61, 124.97, -131.25, 442.59, 124.97, -131.25, 425.57, 124.97, -131.25, 408.55, 124.97, -131.25, 391.53, 124.97, -131.25, 374.51, 124.97, -131.25, 357.49, 124.97, -131.25, 340.47, 124.97, -131.25, 323.45, 124.97, -131.25, 306.43, 124.97, -131.25, 289.41, 124.97, -131.25, 272.38, 124.97, -131.25, 255.36, 124.97, -131.25, 238.34, 124.97, -131.25, 221.32, 124.97, -131.25, 204.30, 124.97, -131.25, 187.28, 124.97, -131.25, 170.26, 124.97, -131.25, 153.24, 124.97, -131.25, 136.22, 124.97, -131.25, 119.20, 124.97, -131.25, 102.18, 124.97, -131.25, 85.16, 124.97, -131.25, 68.14, 124.97, -131.25, 51.12, 124.97, -131.25, 34.09, 124.97, -131.25, 17.07, 124.97, -131.25, 0.05, 124.97, -131.25, -16.97, 124.97, -131.25, -33.99, 124.97, -131.25, -51.01, 124.97, -131.25, -68.03, 124.97, -131.25, -85.05, 124.97, -131.25, -102.07, 124.97, -131.25, -119.09, 124.97, -131.25, -136.11, 124.97, -131.25, -153.13, 124.97, -131.25, -170.15, 124.97, -131.25, -187.18, 124.97, -131.25, -204.20, 124.97, -131.25, -221.22, 124.97, -131.25, -238.24, 124.97, -131.25, -255.26, 124.97, -131.25, -272.28, 124.97, -131.25, -289.30, 124.97, -131.25, -306.32, 124.97, -131.25, -323.34, 124.97, -131.25, -340.36, 124.97, -131.25, -357.38, 124.97, -131.25, -374.40, 124.97, -131.25, -391.42, 124.97, -131.25, -408.45, 124.97, -131.25, -425.47, 124.97, -131.25, -442.49, 124.97, -131.25, -459.51, 124.97, -131.25, -476.53, 124.97, -131.25, -493.55, 124.97, -131.25, -510.57, 248.15, -111.87, 498.34, 248.15, -111.87, 481.01, 248.15, -111.87, 463.99, 248.15, -111.87, 446.97, 248.15, -111.87, 429.95, 248.15, -111.87, 412.93, 248.15, -111.87, 395.91, 248.15, -111.87, 378.89, 248.15, -111.87, 361.87, 248.15, -111.87, 344.85, 248.15, -111.87, 327.83, 248.15, -111.87, 310.81, 248.15, -111.87, 293.79, 248.15, -111.87, 276.76, 248.15, -111.87, 259.74, 248.15, -111.87, 242.72, 248.15, -111.87, 225.70, 248.15, -111.87, 208.68, 248.15, -111.87, 191.66, 248.15, -111.87, 174.64, 248.15, -111.87, 157.62, 248.15, -111.87, 140.60, 248.15, -111.87, 123.58, 248.15, -111.87, 106.56, 248.15, -111.87, 89.54, 248.15, -111.87, 72.52, 248.15, -111.87, 55.50, 248.15, -111.87, 38.47, 248.15, -111.87, 21.45, 248.15, -111.87, 4.43, 248.15, -111.87, -12.59, 248.15, -111.87, -29.61, 248.15, -111.87, -46.63, 248.15, -111.87, -63.65, 248.15, -111.87, -80.67, 248.15, -111.87, -97.69, 248.15, -111.87, -114.71, 248.15, -111.87, -131.73, 248.15, -111.87, -148.75, 248.15, -111.87, -165.77, 248.15, -111.87, -182.80, 248.15, -111.87, -199.82, 248.15, -111.87, -216.84, 248.15, -111.87, -233.86, 248.15, -111.87, -250.88, 248.15, -111.87, -267.90, 248.15, -111.87, -284.92, 248.15, -111.87, -301.94, 248.15, -111.87, -318.96, 248.15, -111.87, -335.98, 248.15, -111.87, -353.00, 248.15, -111.87, -370.02, 248.15, -111.87, -387.04, 248.15, -111.87, -404.07, 248.15, -111.87, -421.09, 248.15, -111.87, -438.11, 248.15, -111.87, -455.13, 248.15, -111.87, -472.15, 248.15, -111.87, -489.17, 248.15, -111.87, -506.19, 371.56, -92.18, 501.58, 371.56, -92.18, 485.56, 371.56, -92.18, 467.54, 371.56, -92.18, 451.52, 371.56, -92.18, 433.50, 371.56, -92.18, 417.48, 371.56, -92.18, 399.46, 371.56, -92.18, 383.44, 371.56, -92.18, 365.42, 371.56, -92.18, 349.40, 371.56, -92.18, 331.38, 371.56, -92.18, 315.36, 371.56, -92.18, 297.33, 371.56, -92.18, 281.31, 371.56, -92.18, 263.29, 371.56, -92.18, 247.27, 371.56, -92.18, 229.25, 371.56, -92.18, 213.23, 371.56, -92.18, 195.21, 371.56, -92.18, 179.19, 371.56, -92.18, 161.17, 371.56, -92.18, 145.15, 371.56, -92.18, 127.13, 371.56, -92.18, 111.11, 371.56, -92.18, 93.09, 371.56, -92.18, 77.07, 371.56, -92.18, 59.04, 371.56, -92.18, 43.02, 371.56, -92.18, 25.00, 371.56, -92.18, 8.98, 371.56, -92.18, -9.04, 371.56, -92.18, -25.06, 371.56, -92.18, -43.08, 371.56, -92.18, -59.10, 371.56, -92.18, -77.12, 371.56, -92.18, -93.14, 371.56, -92.18, -111.16, 371.56, -92.18, -127.18, 371.56, -92.18, -145.21, 371.56, -92.18, -161.22, 371.56, -92.18, -179.25, 371.56, -92.18, -195.27, 371.56, -92.18, -213.29, 371.56, -92.18, -229.31, 371.56, -92.18, -247.33, 371.56, -92.18, -263.35, 371.56, -92.18, -281.37, 371.56, -92.18, -297.39, 371.56, -92.18, -315.41, 371.56, -92.18, -331.43, 371.56, -92.18, -349.45, 371.56, -92.18, -365.47, 371.56, -92.18, -383.50, 371.56, -92.18, -399.52, 371.56, -92.18, -417.54, 371.56, -92.18, -433.56, 371.56, -92.18, -451.58, 371.56, -92.18, -467.60, 371.56, -92.18, -485.62, 371.56, -92.18, -501.64, 500.43, -58.45, 501.85, 500.43, -58.45, 484.83, 500.43, -58.45, 467.81, 500.43, -58.45, 450.79, 500.43, -58.45, 433.77, 500.43, -58.45, 416.75, 500.43, -58.45, 399.73, 500.43, -58.45, 382.71, 500.43, -58.45, 365.69, 500.43, -58.45, 348.67, 500.43, -58.45, 331.65, 500.43, -58.45, 314.63, 500.43, -58.45, 297.61, 500.43, -58.45, 280.58, 500.43, -58.45, 263.56, 500.43, -58.45, 246.54, 500.43, -58.45, 229.52, 500.43, -58.45, 212.50, 500.43, -58.45, 195.48, 500.43, -58.45, 178.46, 500.43, -58.45, 161.44, 500.43, -58.45, 144.42, 500.43, -58.45, 127.40, 500.43, -58.45, 110.38, 500.43, -58.45, 93.36, 500.43, -58.45, 76.34, 500.43, -58.45, 59.32, 500.43, -58.45, 42.29, 500.43, -58.45, 25.27, 500.43, -58.45, 8.25, 500.43, -58.45, -8.77, 500.43, -58.45, -25.79, 500.43, -58.45, -42.81, 500.43, -58.45, -59.83, 500.43, -58.45, -76.85, 500.43, -58.45, -93.87, 500.43, -58.45, -110.89, 500.43, -58.45, -127.91, 500.43, -58.45, -144.93, 500.43, -58.45, -161.95, 500.43, -58.45, -178.98, 500.43, -58.45, -196.00, 500.43, -58.45, -213.02, 500.43, -58.45, -230.04, 500.43, -58.45, -247.06, 500.43, -58.45, -264.08, 500.43, -58.45, -281.10, 500.43, -58.45, -298.12, 500.43, -58.45, -315.14, 500.43, -58.45, -332.16, 500.43, -58.45, -349.18, 500.43, -58.45, -366.20, 500.43, -58.45, -383.22, 500.43, -58.45, -400.25, 500.43, -58.45, -417.27, 500.43, -58.45, -434.29, 500.43, -58.45, -451.31, 500.43, -58.45, -468.33, 500.43, -58.45, -485.35, 500.43, -58.45, -502.37, -570.90, -125.14, 499.60, -570.90, -125.14, 482.58, -570.90, -125.14, 465.56, -570.90, -125.14, 448.54, -570.90, -125.14, 431.52, -570.90, -125.14, 414.50, -570.90, -125.14, 397.48, -570.90, -125.14, 380.46, -570.90, -125.14, 363.44, -570.90, -125.14, 346.42, -570.90, -125.14, 329.40, -570.90, -125.14, 312.38, -570.90, -125.14, 295.36, -570.90, -125.14, 278.33, -570.90, -125.14, 261.31, -570.90, -125.14, 244.29, -570.90, -125.14, 227.27, -570.90, -125.14, 210.25, -570.90, -125.14, 193.23, -570.90, -125.14, 176.21, -570.90, -125.14, 159.19, -570.90, -125.14, 142.17, -570.90, -125.14, 125.15, -570.90, -125.14, 108.13, -570.90, -125.14, 91.11, -570.90, -125.14, 74.09, -570.90, -125.14, 57.07, -570.90, -125.14, 40.04, -570.90, -125.14, 23.02, -570.90, -125.14, 6.00, -570.90, -125.14, -11.02, -570.90, -125.14, -28.04, -570.90, -125.14, -45.06, -570.90, -125.14, -62.08, -570.90, -125.14, -79.10, -570.90, -125.14, -96.12, -570.90, -125.14, -113.14, -570.90, -125.14, -130.16, -570.90, -125.14, -147.18, -570.90, -125.14, -164.20, -570.90, -125.14, -181.23, -570.90, -125.14, -198.25, -570.90, -125.14, -215.27, -570.90, -125.14, -232.29, -570.90, -125.14, -249.31, -570.90, -125.14, -266.33, -570.90, -125.14, -283.35, -570.90, -125.14, -300.37, -570.90, -125.14, -317.39, -570.90, -125.14, -334.41, -570.90, -125.14, -351.43, -570.90, -125.14, -368.45, -570.90, -125.14, -385.47, -570.90, -125.14, -402.50, -570.90, -125.14, -419.52, -570.90, -125.14, -436.54, -570.90, -125.14, -453.56, -570.90, -125.14, -470.58, -570.90, -125.14, -487.60, -570.90, -125.14, -504.62, -447.74, -113.13, 500.67, -447.74, -113.13, 483.65, -447.74, -113.13, 466.63, -447.74, -113.13, 449.61, -447.74, -113.13, 432.59, -447.74, -113.13, 415.57, -447.74, -113.13, 398.55, -447.74, -113.13, 381.53, -447.74, -113.13, 364.51, -447.74, -113.13, 347.49, -447.74, -113.13, 330.47, -447.74, -113.13, 313.45, -447.74, -113.13, 296.43, -447.74, -113.13, 279.40, -447.74, -113.13, 262.38, -447.74, -113.13, 245.36, -447.74, -113.13, 228.34, -447.74, -113.13, 211.32, -447.74, -113.13, 194.30, -447.74, -113.13, 177.28, -447.74, -113.13, 160.26, -447.74, -113.13, 143.24, -447.74, -113.13, 126.22, -447.74, -113.13, 109.20, -447.74, -113.13, 92.18, -447.74, -113.13, 75.16, -447.74, -113.13, 58.14, -447.74, -113.13, 41.11, -447.74, -113.13, 24.09, -447.74, -113.13, 7.07, -447.74, -113.13, -9.95, -447.74, -113.13, -26.97, -447.74, -113.13, -43.99, -447.74, -113.13, -61.01, -447.74, -113.13, -78.03, -447.74, -113.13, -95.05, -447.74, -113.13, -112.07, -447.74, -113.13, -129.09, -447.74, -113.13, -146.11, -447.74, -113.13, -163.13, -447.74, -113.13, -180.16, -447.74, -113.13, -197.18, -447.74, -113.13, -214.20, -447.74, -113.13, -231.22, -447.74, -113.13, -248.24, -447.74, -113.13, -265.26, -447.74, -113.13, -282.28, -447.74, -113.13, -299.30, -447.74, -113.13, -316.32, -447.74, -113.13, -333.34, -447.74, -113.13, -350.36, -447.74, -113.13, -367.38, -447.74, -113.13, -384.40, -447.74, -113.13, -401.43, -447.74, -113.13, -418.45, -447.74, -113.13, -435.47, -447.74, -113.13, -452.49, -447.74, -113.13, -469.51, -447.74, -113.13, -486.53, -447.74, -113.13, -503.55, -324.39, -93.43, 500.13, -324.39, -93.43, 483.11, -324.39, -93.43, 466.09, -324.39, -93.43, 449.07, -324.39, -93.43, 432.05, -324.39, -93.43, 415.03, -324.39, -93.43, 398.01, -324.39, -93.43, 380.99, -324.39, -93.43, 363.97, -324.39, -93.43, 346.95, -324.39, -93.43, 329.93, -324.39, -93.43, 312.91, -324.39, -93.43, 295.89, -324.39, -93.43, 278.86, -324.39, -93.43, 261.84, -324.39, -93.43, 244.82, -324.39, -93.43, 227.80, -324.39, -93.43, 210.78, -324.39, -93.43, 193.76, -324.39, -93.43, 176.74, -324.39, -93.43, 159.72, -324.39, -93.43, 142.70, -324.39, -93.43, 125.68, -324.39, -93.43, 108.66, -324.39, -93.43, 91.64, -324.39, -93.43, 74.62, -324.39, -93.43, 57.60, -324.39, -93.43, 40.57, -324.39, -93.43, 23.55, -324.39, -93.43, 6.53, -324.39, -93.43, -10.49, -324.39, -93.43, -27.51, -324.39, -93.43, -44.53, -324.39, -93.43, -61.55, -324.39, -93.43, -78.57, -324.39, -93.43, -95.59, -324.39, -93.43, -112.61, -324.39, -93.43, -129.63, -324.39, -93.43, -146.65, -324.39, -93.43, -163.67, -324.39, -93.43, -180.70, -324.39, -93.43, -197.72, -324.39, -93.43, -214.74, -324.39, -93.43, -231.76, -324.39, -93.43, -248.78, -324.39, -93.43, -265.80, -324.39, -93.43, -282.82, -324.39, -93.43, -299.84, -324.39, -93.43, -316.86, -324.39, -93.43, -333.88, -324.39, -93.43, -350.90, -324.39, -93.43, -367.92, -324.39, -93.43, -384.94, -324.39, -93.43, -401.97, -324.39, -93.43, -418.99, -324.39, -93.43, -436.01, -324.39, -93.43, -453.03, -324.39, -93.43, -470.05, -324.39, -93.43, -487.07, -324.39, -93.43, -504.09, -200.55, -74.03, 523.42, -200.55, -74.03, 506.40, -200.55, -74.03, 489.38, -200.55, -74.03, 472.36, -200.55, -74.03, 455.34, -200.55, -74.03, 438.32, -200.55, -74.03, 421.30, -200.55, -74.03, 404.28, -200.55, -74.03, 387.26, -200.55, -74.03, 370.24, -200.55, -74.03, 353.22, -200.55, -74.03, 336.20, -200.55, -74.03, 319.18, -200.55, -74.03, 302.15, -200.55, -74.03, 285.13, -200.55, -74.03, 268.11, -200.55, -74.03, 251.09, -200.55, -74.03, 234.07, -200.55, -74.03, 217.05, -200.55, -74.03, 200.03, -200.55, -74.03, 183.01, -200.55, -74.03, 165.99, -200.55, -74.03, 148.97, -200.55, -74.03, 131.95, -200.55, -74.03, 114.93, -200.55, -74.03, 97.91, -200.55, -74.03, 80.89, -200.55, -74.03, 63.86, -200.55, -74.03, 46.84, -200.55, -74.03, 29.82, -200.55, -74.03, 12.80, -200.55, -74.03, -4.22, -200.55, -74.03, -21.24, -200.55, -74.03, -38.26, -200.55, -74.03, -55.28, -200.55, -74.03, -72.30, -200.55, -74.03, -89.32, -200.55, -74.03, -106.34, -200.55, -74.03, -123.36, -200.55, -74.03, -140.38, -200.55, -74.03, -157.41, -200.55, -74.03, -174.43, -200.55, -74.03, -191.45, -200.55, -74.03, -208.47, -200.55, -74.03, -225.49, -200.55, -74.03, -242.51, -200.55, -74.03, -259.53, -200.55, -74.03, -276.55, -200.55, -74.03, -293.57, -200.55, -74.03, -310.59, -200.55, -74.03, -327.61, -200.55, -74.03, -344.63, -200.55, -74.03, -361.65, -200.55, -74.03, -378.68, -200.55, -74.03, -395.70, -200.55, -74.03, -412.72, -200.55, -74.03, -429.74, -200.55, -74.03, -446.76, -200.55, -74.03, -463.78, -200.55, -74.03, -480.80, -77.80, -54.33, 502.70, -77.80, -54.33, 485.68, -77.80, -54.33, 468.66, -77.80, -54.33, 451.64, -77.80, -54.33, 434.62, -77.80, -54.33, 417.60, -77.80, -54.33, 400.58, -77.80, -54.33, 383.56, -77.80, -54.33, 366.54, -77.80, -54.33, 349.52, -77.80, -54.33, 332.50, -77.80, -54.33, 315.48, -77.80, -54.33, 298.46, -77.80, -54.33, 281.43, -77.80, -54.33, 264.41, -77.80, -54.33, 247.39, -77.80, -54.33, 230.37, -77.80, -54.33, 213.35, -77.80, -54.33, 196.33, -77.80, -54.33, 179.31, -77.80, -54.33, 162.29, -77.80, -54.33, 145.27, -77.80, -54.33, 128.25, -77.80, -54.33, 111.23, -77.80, -54.33, 94.21, -77.80, -54.33, 77.19, -77.80, -54.33, 60.17, -77.80, -54.33, 43.14, -77.80, -54.33, 26.12, -77.80, -54.33, 9.10, -77.80, -54.33, -7.92, -77.80, -54.33, -24.94, -77.80, -54.33, -41.96, -77.80, -54.33, -58.98, -77.80, -54.33, -76.00, -77.80, -54.33, -93.02, -77.80, -54.33, -110.04, -77.80, -54.33, -127.06, -77.80, -54.33, -144.08, -77.80, -54.33, -161.10, -77.80, -54.33, -178.13, -77.80, -54.33, -195.15, -77.80, -54.33, -212.17, -77.80, -54.33, -229.19, -77.80, -54.33, -246.21, -77.80, -54.33, -263.23, -77.80, -54.33, -280.25, -77.80, -54.33, -297.27, -77.80, -54.33, -314.29, -77.80, -54.33, -331.31, -77.80, -54.33, -348.33, -77.80, -54.33, -365.35, -77.80, -54.33, -382.37, -77.80, -54.33, -399.40, -77.80, -54.33, -416.42, -77.80, -54.33, -433.44, -77.80, -54.33, -450.46, -77.80, -54.33, -467.48, -77.80, -54.33, -484.50, -77.80, -54.33, -501.52, 46.29, -34.88, 500.97, 46.29, -34.88, 483.95, 46.29, -34.88, 466.93, 46.29, -34.88, 449.91, 46.29, -34.88, 432.89, 46.29, -34.88, 415.87, 46.29, -34.88, 398.85, 46.29, -34.88, 381.83, 46.29, -34.88, 364.81, 46.29, -34.88, 347.79, 46.29, -34.88, 330.77, 46.29, -34.88, 313.75, 46.29, -34.88, 296.73, 46.29, -34.88, 279.70, 46.29, -34.88, 262.68, 46.29, -34.88, 245.66, 46.29, -34.88, 228.64, 46.29, -34.88, 211.62, 46.29, -34.88, 194.60, 46.29, -34.88, 177.58, 46.29, -34.88, 160.56, 46.29, -34.88, 143.54, 46.29, -34.88, 126.52, 46.29, -34.88, 109.50, 46.29, -34.88, 92.48, 46.29, -34.88, 75.46, 46.29, -34.88, 58.44, 46.29, -34.88, 41.41, 46.29, -34.88, 24.39, 46.29, -34.88, 7.37, 46.29, -34.88, -9.65, 46.29, -34.88, -26.67, 46.29, -34.88, -43.69, 46.29, -34.88, -60.71, 46.29, -34.88, -77.73, 46.29, -34.88, -94.75, 46.29, -34.88, -111.77, 46.29, -34.88, -128.79, 46.29, -34.88, -145.81, 46.29, -34.88, -162.83, 46.29, -34.88, -179.86, 46.29, -34.88, -196.88, 46.29, -34.88, -213.90, 46.29, -34.88, -230.92, 46.29, -34.88, -247.94, 46.29, -34.88, -264.96, 46.29, -34.88, -281.98, 46.29, -34.88, -299.00, 46.29, -34.88, -316.02, 46.29, -34.88, -333.04, 46.29, -34.88, -350.06, 46.29, -34.88, -367.08, 46.29, -34.88, -384.10, 46.29, -34.88, -401.13, 46.29, -34.88, -418.15, 46.29, -34.88, -435.17, 46.29, -34.88, -452.19, 46.29, -34.88, -469.21, 46.29, -34.88, -486.23, 46.29, -34.88, -503.25, 194.34, -30.92, 504.09, 194.34, -30.92, 487.07, 194.34, -30.92, 470.05, 194.34, -30.92, 453.03, 194.34, -30.92, 436.01, 194.34, -30.92, 418.99, 194.34, -30.92, 401.97, 194.34, -30.92, 384.95, 194.34, -30.92, 367.93, 194.34, -30.92, 350.91, 194.34, -30.92, 333.89, 194.34, -30.92, 316.87, 194.34, -30.92, 299.85, 194.34, -30.92, 282.82, 194.34, -30.92, 265.80, 194.34, -30.92, 248.78, 194.34, -30.92, 231.76, 194.34, -30.92, 214.74, 194.34, -30.92, 197.72, 194.34, -30.92, 180.70, 194.34, -30.92, 163.68, 194.34, -30.92, 146.66, 194.34, -30.92, 129.64, 194.34, -30.92, 112.62, 194.34, -30.92, 95.60, 194.34, -30.92, 78.58, 194.34, -30.92, 61.56, 194.34, -30.92, 44.53, 194.34, -30.92, 27.51, 194.34, -30.92, 10.49, 194.34, -30.92, -6.53, 194.34, -30.92, -23.55, 194.34, -30.92, -40.57, 194.34, -30.92, -57.59, 194.34, -30.92, -74.61, 194.34, -30.92, -91.63, 194.34, -30.92, -108.65, 194.34, -30.92, -125.67, 194.34, -30.92, -142.69, 194.34, -30.92, -159.71, 194.34, -30.92, -176.74, 194.34, -30.92, -193.76, 194.34, -30.92, -210.78, 194.34, -30.92, -227.80, 194.34, -30.92, -244.82, 194.34, -30.92, -261.84, 194.34, -30.92, -278.86, 194.34, -30.92, -295.88, 194.34, -30.92, -312.90, 194.34, -30.92, -329.92, 194.34, -30.92, -346.94, 194.34, -30.92, -363.96, 194.34, -30.92, -380.98, 194.34, -30.92, -398.01, 194.34, -30.92, -415.03, 194.34, -30.92, -432.05, 194.34, -30.92, -449.07, 194.34, -30.92, -466.09, 194.34, -30.92, -483.11, 194.34, -30.92, -500.13, 292.90, 5.20, 491.40, 292.90, 5.20, 474.38, 292.90, 5.20, 457.36, 292.90, 5.20, 440.34, 292.90, 5.20, 423.32, 292.90, 5.20, 406.30, 292.90, 5.20, 389.28, 292.90, 5.20, 372.26, 292.90, 5.20, 355.24, 292.90, 5.20, 338.22, 292.90, 5.20, 321.20, 292.90, 5.20, 304.18, 292.90, 5.20, 287.16, 292.90, 5.20, 270.13, 292.90, 5.20, 253.11, 292.90, 5.20, 236.09, 292.90, 5.20, 219.07, 292.90, 5.20, 202.05, 292.90, 5.20, 185.03, 292.90, 5.20, 168.01, 292.90, 5.20, 150.99, 292.90, 5.20, 133.97, 292.90, 5.20, 116.95, 292.90, 5.20, 99.93, 292.90, 5.20, 82.91, 292.90, 5.20, 65.89, 292.90, 5.20, 48.87, 292.90, 5.20, 31.84, 292.90, 5.20, 14.82, 292.90, 5.20, -2.20, 292.90, 5.20, -19.22, 292.90, 5.20, -36.24, 292.90, 5.20, -53.26, 292.90, 5.20, -70.28, 292.90, 5.20, -87.30, 292.90, 5.20, -104.32, 292.90, 5.20, -121.34, 292.90, 5.20, -138.36, 292.90, 5.20, -155.38, 292.90, 5.20, -172.40, 292.90, 5.20, -189.43, 292.90, 5.20, -206.45, 292.90, 5.20, -223.47, 292.90, 5.20, -240.49, 292.90, 5.20, -257.51, 292.90, 5.20, -274.53, 292.90, 5.20, -291.55, 292.90, 5.20, -308.57, 292.90, 5.20, -325.59, 292.90, 5.20, -342.61, 292.90, 5.20, -359.63, 292.90, 5.20, -376.65, 292.90, 5.20, -393.67, 292.90, 5.20, -410.70, 292.90, 5.20, -427.72, 292.90, 5.20, -444.74, 292.90, 5.20, -461.76, 292.90, 5.20, -478.78, 292.90, 5.20, -495.80, 292.90, 5.20, -512.82, 411.81, 13.00, 501.73, 411.81, 13.00, 484.71, 411.81, 13.00, 467.69, 411.81, 13.00, 450.67, 411.81, 13.00, 433.65, 411.81, 13.00, 416.63, 411.81, 13.00, 399.61, 411.81, 13.00, 382.59, 411.81, 13.00, 365.57, 411.81, 13.00, 348.55, 411.81, 13.00, 331.53, 411.81, 13.00, 314.51, 411.81, 13.00, 297.49, 411.81, 13.00, 280.46, 411.81, 13.00, 263.44, 411.81, 13.00, 246.42, 411.81, 13.00, 229.40, 411.81, 13.00, 212.38, 411.81, 13.00, 195.36, 411.81, 13.00, 178.34, 411.81, 13.00, 161.32, 411.81, 13.00, 144.30, 411.81, 13.00, 127.28, 411.81, 13.00, 110.26, 411.81, 13.00, 93.24, 411.81, 13.00, 76.22, 411.81, 13.00, 59.20, 411.81, 13.00, 42.17, 411.81, 13.00, 25.15, 411.81, 13.00, 8.13, 411.81, 13.00, -8.89, 411.81, 13.00, -25.91, 411.81, 13.00, -42.93, 411.81, 13.00, -59.95, 411.81, 13.00, -76.97, 411.81, 13.00, -93.99, 411.81, 13.00, -111.01, 411.81, 13.00, -128.03, 411.81, 13.00, -145.05, 411.81, 13.00, -162.07, 411.81, 13.00, -179.10, 411.81, 13.00, -196.12, 411.81, 13.00, -213.14, 411.81, 13.00, -230.16, 411.81, 13.00, -247.18, 411.81, 13.00, -264.20, 411.81, 13.00, -281.22, 411.81, 13.00, -298.24, 411.81, 13.00, -315.26, 411.81, 13.00, -332.28, 411.81, 13.00, -349.30, 411.81, 13.00, -366.32, 411.81, 13.00, -383.34, 411.81, 13.00, -400.37, 411.81, 13.00, -417.39, 411.81, 13.00, -434.41, 411.81, 13.00, -451.43, 411.81, 13.00, -468.45, 411.81, 13.00, -485.47, 411.81, 13.00, -502.49, 544.07, 55.89, 502.79, 544.07, 55.89, 485.76, 544.07, 55.89, 468.74, 544.07, 55.89, 451.72, 544.07, 55.89, 434.70, 544.07, 55.89, 417.68, 544.07, 55.89, 400.66, 544.07, 55.89, 383.64, 544.07, 55.89, 366.62, 544.07, 55.89, 349.60, 544.07, 55.89, 332.58, 544.07, 55.89, 315.56, 544.07, 55.89, 298.54, 544.07, 55.89, 281.52, 544.07, 55.89, 264.50, 544.07, 55.89, 247.47, 544.07, 55.89, 230.45, 544.07, 55.89, 213.43, 544.07, 55.89, 196.41, 544.07, 55.89, 179.39, 544.07, 55.89, 162.37, 544.07, 55.89, 145.35, 544.07, 55.89, 128.33, 544.07, 55.89, 111.31, 544.07, 55.89, 94.29, 544.07, 55.89, 77.27, 544.07, 55.89, 60.25, 544.07, 55.89, 43.23, 544.07, 55.89, 26.20, 544.07, 55.89, 9.18, 544.07, 55.89, -7.84, 544.07, 55.89, -24.86, 544.07, 55.89, -41.88, 544.07, 55.89, -58.90, 544.07, 55.89, -75.92, 544.07, 55.89, -92.94, 544.07, 55.89, -109.96, 544.07, 55.89, -126.98, 544.07, 55.89, -144.00, 544.07, 55.89, -161.02, 544.07, 55.89, -178.04, 544.07, 55.89, -195.07, 544.07, 55.89, -212.09, 544.07, 55.89, -229.11, 544.07, 55.89, -246.13, 544.07, 55.89, -263.15, 544.07, 55.89, -280.17, 544.07, 55.89, -297.19, 544.07, 55.89, -314.21, 544.07, 55.89, -331.23, 544.07, 55.89, -348.25, 544.07, 55.89, -365.27, 544.07, 55.89, -382.29, 544.07, 55.89, -399.31, 544.07, 55.89, -416.34, 544.07, 55.89, -433.36, 544.07, 55.89, -450.38, 544.07, 55.89, -467.40, 544.07, 55.89, -484.42, 544.07, 55.89, -502.14, -526.63, -15.60, 502.67, -526.63, -15.60, 485.64, -526.63, -15.60, 468.62, -526.63, -15.60, 451.60, -526.63, -15.60, 434.58, -526.63, -15.60, 417.56, -526.63, -15.60, 400.54, -526.63, -15.60, 383.52, -526.63, -15.60, 366.50, -526.63, -15.60, 349.48, -526.63, -15.60, 332.46, -526.63, -15.60, 315.44, -526.63, -15.60, 298.42, -526.63, -15.60, 281.40, -526.63, -15.60, 264.37, -526.63, -15.60, 247.35, -526.63, -15.60, 230.33, -526.63, -15.60, 213.31, -526.63, -15.60, 196.29, -526.63, -15.60, 179.27, -526.63, -15.60, 162.25, -526.63, -15.60, 145.23, -526.63, -15.60, 128.21, -526.63, -15.60, 111.19, -526.63, -15.60, 94.17, -526.63, -15.60, 77.15, -526.63, -15.60, 60.13, -526.63, -15.60, 43.10, -526.63, -15.60, 26.08, -526.63, -15.60, 9.06, -526.63, -15.60, -7.96, -526.63, -15.60, -24.98, -526.63, -15.60, -42.00, -526.63, -15.60, -59.02, -526.63, -15.60, -76.04, -526.63, -15.60, -93.06, -526.63, -15.60, -110.08, -526.63, -15.60, -127.10, -526.63, -15.60, -144.12, -526.63, -15.60, -161.14, -526.63, -15.60, -178.17, -526.63, -15.60, -195.19, -526.63, -15.60, -212.21, -526.63, -15.60, -229.23, -526.63, -15.60, -246.25, -526.63, -15.60, -263.27, -526.63, -15.60, -280.29, -526.63, -15.60, -297.31, -526.63, -15.60, -314.33, -526.63, -15.60, -331.35, -526.63, -15.60, -348.37, -526.63, -15.60, -365.39, -526.63, -15.60, -382.41, -526.63, -15.60, -399.43, -526.63, -15.60, -416.46, -526.63, -15.60, -433.48, -526.63, -15.60, -450.50, -526.63, -15.60, -467.52, -526.63, -15.60, -484.54, -526.63, -15.60, -502.01, -403.14, 3.49, 501.80, -403.14, 3.49, 484.78, -403.14, 3.49, 467.76, -403.14, 3.49, 450.74, -403.14, 3.49, 433.72, -403.14, 3.49, 416.70, -403.14, 3.49, 399.68, -403.14, 3.49, 382.66, -403.14, 3.49, 365.64, -403.14, 3.49, 348.62, -403.14, 3.49, 331.60, -403.14, 3.49, 314.58, -403.14, 3.49, 297.56, -403.14, 3.49, 280.53, -403.14, 3.49, 263.51, -403.14, 3.49, 246.49, -403.14, 3.49, 229.47, -403.14, 3.49, 212.45, -403.14, 3.49, 195.43, -403.14, 3.49, 178.41, -403.14, 3.49, 161.39, -403.14, 3.49, 144.37, -403.14, 3.49, 127.35, -403.14, 3.49, 110.33, -403.14, 3.49, 93.31, -403.14, 3.49, 76.29, -403.14, 3.49, 59.27, -403.14, 3.49, 42.24, -403.14, 3.49, 25.22, -403.14, 3.49, 8.20, -403.14, 3.49, -8.82, -403.14, 3.49, -25.84, -403.14, 3.49, -42.86, -403.14, 3.49, -59.88, -403.14, 3.49, -76.90, -403.14, 3.49, -93.92, -403.14, 3.49, -110.94, -403.14, 3.49, -127.96, -403.14, 3.49, -144.98, -403.14, 3.49, -162.00, -403.14, 3.49, -179.03, -403.14, 3.49, -196.05, -403.14, 3.49, -213.07, -403.14, 3.49, -230.09, -403.14, 3.49, -247.11, -403.14, 3.49, -264.13, -403.14, 3.49, -281.15, -403.14, 3.49, -298.17, -403.14, 3.49, -315.19, -403.14, 3.49, -332.21, -403.14, 3.49, -349.23, -403.14, 3.49, -366.25, -403.14, 3.49, -383.27, -403.14, 3.49, -400.30, -403.14, 3.49, -417.32, -403.14, 3.49, -434.34, -403.14, 3.49, -451.36, -403.14, 3.49, -468.38, -403.14, 3.49, -485.40, -403.14, 3.49, -502.42, -279.53, 23.17, 502.61, -279.53, 23.17, 485.59, -279.53, 23.17, 468.57, -279.53, 23.17, 451.54, -279.53, 23.17, 434.52, -279.53, 23.17, 417.50, -279.53, 23.17, 400.48, -279.53, 23.17, 383.46, -279.53, 23.17, 366.44, -279.53, 23.17, 349.42, -279.53, 23.17, 332.40, -279.53, 23.17, 315.38, -279.53, 23.17, 298.36, -279.53, 23.17, 281.34, -279.53, 23.17, 264.32, -279.53, 23.17, 247.30, -279.53, 23.17, 230.27, -279.53, 23.17, 213.25, -279.53, 23.17, 196.23, -279.53, 23.17, 179.21, -279.53, 23.17, 162.19, -279.53, 23.17, 145.17, -279.53, 23.17, 128.15, -279.53, 23.17, 111.13, -279.53, 23.17, 94.11, -279.53, 23.17, 77.09, -279.53, 23.17, 60.07, -279.53, 23.17, 43.05, -279.53, 23.17, 26.03, -279.53, 23.17, 9.00, -279.53, 23.17, -8.02, -279.53, 23.17, -25.04, -279.53, 23.17, -42.06, -279.53, 23.17, -59.08, -279.53, 23.17, -76.10, -279.53, 23.17, -93.12, -279.53, 23.17, -110.14, -279.53, 23.17, -127.16, -279.53, 23.17, -144.18, -279.53, 23.17, -161.20, -279.53, 23.17, -178.22, -279.53, 23.17, -195.24, -279.53, 23.17, -212.26, -279.53, 23.17, -229.29, -279.53, 23.17, -246.31, -279.53, 23.17, -263.33, -279.53, 23.17, -280.35, -279.53, 23.17, -297.37, -279.53, 23.17, -314.39, -279.53, 23.17, -331.41, -279.53, 23.17, -348.43, -279.53, 23.17, -365.45, -279.53, 23.17, -382.47, -279.53, 23.17, -399.49, -279.53, 23.17, -416.51, -279.53, 23.17, -433.53, -279.53, 23.17, -450.56, -279.53, 23.17, -467.58, -279.53, 23.17, -486.40, -279.53, 23.17, -503.42, -156.23, 43.37, 500.84, -156.23, 43.37, 483.81, -156.23, 43.37, 466.79, -156.23, 43.37, 449.77, -156.23, 43.37, 432.75, -156.23, 43.37, 415.73, -156.23, 43.37, 398.71, -156.23, 43.37, 381.69, -156.23, 43.37, 364.67, -156.23, 43.37, 347.65, -156.23, 43.37, 330.63, -156.23, 43.37, 313.61, -156.23, 43.37, 296.59, -156.23, 43.37, 279.57, -156.23, 43.37, 262.54, -156.23, 43.37, 245.52, -156.23, 43.37, 228.50, -156.23, 43.37, 211.48, -156.23, 43.37, 194.46, -156.23, 43.37, 177.44, -156.23, 43.37, 160.42, -156.23, 43.37, 143.40, -156.23, 43.37, 126.38, -156.23, 43.37, 109.36, -156.23, 43.37, 92.34, -156.23, 43.37, 75.32, -156.23, 43.37, 58.30, -156.23, 43.37, 41.27, -156.23, 43.37, 24.25, -156.23, 43.37, 7.23, -156.23, 43.37, -9.79, -156.23, 43.37, -26.81, -156.23, 43.37, -43.83, -156.23, 43.37, -60.85, -156.23, 43.37, -77.87, -156.23, 43.37, -94.89, -156.23, 43.37, -111.91, -156.23, 43.37, -128.93, -156.23, 43.37, -145.95, -156.23, 43.37, -162.97, -156.23, 43.37, -179.99, -156.23, 43.37, -197.02, -156.23, 43.37, -214.04, -156.23, 43.37, -231.06, -156.23, 43.37, -248.08, -156.23, 43.37, -265.10, -156.23, 43.37, -282.12, -156.23, 43.37, -299.14, -156.23, 43.37, -316.16, -156.23, 43.37, -333.18, -156.23, 43.37, -350.20, -156.23, 43.37, -367.22, -156.23, 43.37, -384.24, -156.23, 43.37, -401.26, -156.23, 43.37, -418.29, -156.23, 43.37, -435.31, -156.23, 43.37, -452.33, -156.23, 43.37, -469.35, -156.23, 43.37, -486.37, -156.23, 43.37, -503.89, -32.96, 62.44, 495.81, -32.96, 62.44, 478.79, -32.96, 62.44, 461.77, -32.96, 62.44, 444.75, -32.96, 62.44, 427.73, -32.96, 62.44, 410.71, -32.96, 62.44, 393.69, -32.96, 62.44, 376.67, -32.96, 62.44, 359.65, -32.96, 62.44, 342.63, -32.96, 62.44, 325.61, -32.96, 62.44, 308.59, -32.96, 62.44, 291.57, -32.96, 62.44, 274.54, -32.96, 62.44, 257.52, -32.96, 62.44, 240.50, -32.96, 62.44, 223.48, -32.96, 62.44, 206.46, -32.96, 62.44, 189.44, -32.96, 62.44, 172.42, -32.96, 62.44, 155.40, -32.96, 62.44, 138.38, -32.96, 62.44, 121.36, -32.96, 62.44, 104.34, -32.96, 62.44, 87.32, -32.96, 62.44, 70.30, -32.96, 62.44, 53.28, -32.96, 62.44, 36.25, -32.96, 62.44, 19.23, -32.96, 62.44, 2.21, -32.96, 62.44, -14.81, -32.96, 62.44, -31.83, -32.96, 62.44, -48.85, -32.96, 62.44, -65.87, -32.96, 62.44, -82.89, -32.96, 62.44, -99.91, -32.96, 62.44, -116.93, -32.96, 62.44, -133.95, -32.96, 62.44, -150.97, -32.96, 62.44, -167.99, -32.96, 62.44, -185.02, -32.96, 62.44, -202.04, -32.96, 62.44, -219.06, -32.96, 62.44, -236.08, -32.96, 62.44, -253.10, -32.96, 62.44, -270.12, -32.96, 62.44, -287.14, -32.96, 62.44, -304.16, -32.96, 62.44, -321.18, -32.96, 62.44, -338.20, -32.96, 62.44, -355.22, -32.96, 62.44, -372.24, -32.96, 62.44, -389.26, -32.96, 62.44, -406.29, -32.96, 62.44, -423.31, -32.96, 62.44, -440.33, -32.96, 62.44, -457.35, -32.96, 62.44, -474.37, -32.96, 62.44, -491.39, -32.96, 62.44, -508.41, 90.49, 82.35, 501.66, 90.49, 82.35, 484.64, 90.49, 82.35, 467.62, 90.49, 82.35, 450.60, 90.49, 82.35, 433.58, 90.49, 82.35, 416.56, 90.49, 82.35, 399.54, 90.49, 82.35, 382.52, 90.49, 82.35, 365.50, 90.49, 82.35, 348.48, 90.49, 82.35, 331.46, 90.49, 82.35, 314.44, 90.49, 82.35, 297.42, 90.49, 82.35, 280.39, 90.49, 82.35, 263.37, 90.49, 82.35, 246.35, 90.49, 82.35, 229.33, 90.49, 82.35, 212.31, 90.49, 82.35, 195.29, 90.49, 82.35, 178.27, 90.49, 82.35, 161.25, 90.49, 82.35, 144.23, 90.49, 82.35, 127.21, 90.49, 82.35, 110.19, 90.49, 82.35, 93.17, 90.49, 82.35, 76.15, 90.49, 82.35, 59.13, 90.49, 82.35, 42.10, 90.49, 82.35, 25.08, 90.49, 82.35, 8.06, 90.49, 82.35, -8.96, 90.49, 82.35, -25.98, 90.49, 82.35, -43.00, 90.49, 82.35, -60.02, 90.49, 82.35, -77.04, 90.49, 82.35, -94.06, 90.49, 82.35, -111.08, 90.49, 82.35, -128.10, 90.49, 82.35, -145.12, 90.49, 82.35, -162.14, 90.49, 82.35, -179.17, 90.49, 82.35, -196.19, 90.49, 82.35, -213.21, 90.49, 82.35, -230.23, 90.49, 82.35, -247.25, 90.49, 82.35, -264.27, 90.49, 82.35, -281.29, 90.49, 82.35, -298.31, 90.49, 82.35, -315.33, 90.49, 82.35, -332.35, 90.49, 82.35, -349.37, 90.49, 82.35, -366.39, 90.49, 82.35, -383.41, 90.49, 82.35, -400.44, 90.49, 82.35, -417.46, 90.49, 82.35, -434.48, 90.49, 82.35, -451.50, 90.49, 82.35, -468.52, 90.49, 82.35, -485.54, 90.49, 82.35, -502.56, 195.03, 125.59, 501.83, 195.03, 125.59, 484.81, 195.03, 125.59, 467.79, 195.03, 125.59, 450.77, 195.03, 125.59, 433.75, 195.03, 125.59, 416.73, 195.03, 125.59, 399.71, 195.03, 125.59, 382.69, 195.03, 125.59, 365.67, 195.03, 125.59, 348.65, 195.03, 125.59, 331.63, 195.03, 125.59, 314.61, 195.03, 125.59, 297.59, 195.03, 125.59, 280.56, 195.03, 125.59, 263.54, 195.03, 125.59, 246.52, 195.03, 125.59, 229.50, 195.03, 125.59, 212.48, 195.03, 125.59, 195.46, 195.03, 125.59, 178.44, 195.03, 125.59, 161.42, 195.03, 125.59, 144.40, 195.03, 125.59, 127.38, 195.03, 125.59, 110.36, 195.03, 125.59, 93.34, 195.03, 125.59, 76.32, 195.03, 125.59, 59.30, 195.03, 125.59, 42.27, 195.03, 125.59, 25.25, 195.03, 125.59, 8.23, 195.03, 125.59, -8.79, 195.03, 125.59, -25.81, 195.03, 125.59, -42.83, 195.03, 125.59, -59.85, 195.03, 125.59, -76.87, 195.03, 125.59, -93.89, 195.03, 125.59, -110.91, 195.03, 125.59, -127.93, 195.03, 125.59, -144.95, 195.03, 125.59, -161.97, 195.03, 125.59, -179.00, 195.03, 125.59, -196.02, 195.03, 125.59, -213.04, 195.03, 125.59, -230.06, 195.03, 125.59, -247.08, 195.03, 125.59, -264.10, 195.03, 125.59, -281.12, 195.03, 125.59, -298.14, 195.03, 125.59, -315.16, 195.03, 125.59, -332.18, 195.03, 125.59, -349.20, 195.03, 125.59, -366.22, 195.03, 125.59, -383.24, 195.03, 125.59, -400.27, 195.03, 125.59, -417.29, 195.03, 125.59, -434.31, 195.03, 125.59, -451.33, 195.03, 125.59, -468.35, 195.03, 125.59, -485.37, 195.03, 125.59, -502.39, 330.03, 127.20, 500.87, 330.03, 127.20, 483.85, 330.03, 127.20, 466.83, 330.03, 127.20, 449.80, 330.03, 127.20, 432.78, 330.03, 127.20, 415.76, 330.03, 127.20, 398.74, 330.03, 127.20, 381.72, 330.03, 127.20, 364.70, 330.03, 127.20, 347.68, 330.03, 127.20, 330.66, 330.03, 127.20, 313.64, 330.03, 127.20, 296.62, 330.03, 127.20, 279.60, 330.03, 127.20, 262.58, 330.03, 127.20, 245.56, 330.03, 127.20, 228.53, 330.03, 127.20, 211.51, 330.03, 127.20, 194.49, 330.03, 127.20, 177.47, 330.03, 127.20, 160.45, 330.03, 127.20, 143.43, 330.03, 127.20, 126.41, 330.03, 127.20, 109.39, 330.03, 127.20, 92.37, 330.03, 127.20, 75.35, 330.03, 127.20, 58.33, 330.03, 127.20, 41.31, 330.03, 127.20, 24.29, 330.03, 127.20, 7.26, 330.03, 127.20, -9.76, 330.03, 127.20, -26.78, 330.03, 127.20, -43.80, 330.03, 127.20, -60.82, 330.03, 127.20, -77.84, 330.03, 127.20, -94.86, 330.03, 127.20, -111.88, 330.03, 127.20, -128.90, 330.03, 127.20, -145.92, 330.03, 127.20, -162.94, 330.03, 127.20, -179.96, 330.03, 127.20, -196.98, 330.03, 127.20, -214.01, 330.03, 127.20, -231.03, 330.03, 127.20, -248.05, 330.03, 127.20, -265.07, 330.03, 127.20, -282.09, 330.03, 127.20, -299.11, 330.03, 127.20, -316.13, 330.03, 127.20, -333.15, 330.03, 127.20, -350.17, 330.03, 127.20, -367.19, 330.03, 127.20, -384.21, 330.03, 127.20, -401.23, 330.03, 127.20, -418.25, 330.03, 127.20, -435.28, 330.03, 127.20, -452.30, 330.03, 127.20, -469.32, 330.03, 127.20, -486.34, 330.03, 127.20, -504.86, 472.05, 127.90, 504.27, 472.05, 127.90, 487.25, 472.05, 127.90, 470.23, 472.05, 127.90, 453.21, 472.05, 127.90, 436.19, 472.05, 127.90, 419.17, 472.05, 127.90, 402.15, 472.05, 127.90, 385.13, 472.05, 127.90, 368.11, 472.05, 127.90, 351.09, 472.05, 127.90, 334.07, 472.05, 127.90, 317.05, 472.05, 127.90, 300.03, 472.05, 127.90, 283.00, 472.05, 127.90, 265.98, 472.05, 127.90, 248.96, 472.05, 127.90, 231.94, 472.05, 127.90, 214.92, 472.05, 127.90, 197.90, 472.05, 127.90, 180.88, 472.05, 127.90, 163.86, 472.05, 127.90, 146.84, 472.05, 127.90, 129.82, 472.05, 127.90, 112.80, 472.05, 127.90, 95.78, 472.05, 127.90, 78.76, 472.05, 127.90, 61.74, 472.05, 127.90, 44.71, 472.05, 127.90, 27.69, 472.05, 127.90, 10.67, 472.05, 127.90, -6.35, 472.05, 127.90, -23.37, 472.05, 127.90, -40.39, 472.05, 127.90, -57.41, 472.05, 127.90, -74.43, 472.05, 127.90, -91.45, 472.05, 127.90, -108.47, 472.05, 127.90, -125.49, 472.05, 127.90, -142.51, 472.05, 127.90, -159.53, 472.05, 127.90, -176.56, 472.05, 127.90, -193.58, 472.05, 127.90, -210.60, 472.05, 127.90, -227.62, 472.05, 127.90, -244.64, 472.05, 127.90, -261.66, 472.05, 127.90, -278.68, 472.05, 127.90, -295.70, 472.05, 127.90, -312.72, 472.05, 127.90, -329.74, 472.05, 127.90, -346.76, 472.05, 127.90, -363.78, 472.05, 127.90, -380.80, 472.05, 127.90, -397.83, 472.05, 127.90, -414.85, 472.05, 127.90, -431.87, 472.05, 127.90, -448.89, 472.05, 127.90, -465.91, 472.05, 127.90, -482.93, 472.05, 127.90, -499.95, 576.37, 170.92, 494.04, 576.37, 170.92, 477.02, 576.37, 170.92, 460.00, 576.37, 170.92, 442.98, 576.37, 170.92, 425.96, 576.37, 170.92, 408.94, 576.37, 170.92, 391.92, 576.37, 170.92, 374.90, 576.37, 170.92, 357.88, 576.37, 170.92, 340.86, 576.37, 170.92, 323.84, 576.37, 170.92, 306.82, 576.37, 170.92, 289.80, 576.37, 170.92, 272.77, 576.37, 170.92, 255.75, 576.37, 170.92, 238.73, 576.37, 170.92, 221.71, 576.37, 170.92, 204.69, 576.37, 170.92, 187.67, 576.37, 170.92, 170.65, 576.37, 170.92, 153.63, 576.37, 170.92, 136.61, 576.37, 170.92, 119.59, 576.37, 170.92, 102.57, 576.37, 170.92, 85.55, 576.37, 170.92, 68.53, 576.37, 170.92, 51.51, 576.37, 170.92, 34.48, 576.37, 170.92, 17.46, 576.37, 170.92, 0.44, 576.37, 170.92, -16.58, 576.37, 170.92, -33.60, 576.37, 170.92, -50.62, 576.37, 170.92, -67.64, 576.37, 170.92, -84.66, 576.37, 170.92, -101.68, 576.37, 170.92, -118.70, 576.37, 170.92, -135.72, 576.37, 170.92, -152.74, 576.37, 170.92, -169.76, 576.37, 170.92, -186.79, 576.37, 170.92, -203.81, 576.37, 170.92, -220.83, 576.37, 170.92, -237.85, 576.37, 170.92, -254.87, 576.37, 170.92, -271.89, 576.37, 170.92, -288.91, 576.37, 170.92, -305.93, 576.37, 170.92, -322.95, 576.37, 170.92, -339.97, 576.37, 170.92, -356.99, 576.37, 170.92, -374.01, 576.37, 170.92, -391.03, 576.37, 170.92, -408.06, 576.37, 170.92, -425.08, 576.37, 170.92, -442.10, 576.37, 170.92, -459.12, 576.37, 170.92, -476.14, 576.37, 170.92, -493.16, 576.37, 170.92, -510.18, -481.60, 101.39, 502.05, -481.60, 101.39, 485.03, -481.60, 101.39, 468.01, -481.60, 101.39, 450.99, -481.60, 101.39, 433.97, -481.60, 101.39, 416.95, -481.60, 101.39, 399.93, -481.60, 101.39, 382.91, -481.60, 101.39, 365.89, -481.60, 101.39, 348.87, -481.60, 101.39, 331.85, -481.60, 101.39, 314.83, -481.60, 101.39, 297.81, -481.60, 101.39, 280.78, -481.60, 101.39, 263.76, -481.60, 101.39, 246.74, -481.60, 101.39, 229.72, -481.60, 101.39, 212.70, -481.60, 101.39, 195.68, -481.60, 101.39, 178.66, -481.60, 101.39, 161.64, -481.60, 101.39, 144.62, -481.60, 101.39, 127.60, -481.60, 101.39, 110.58, -481.60, 101.39, 93.56, -481.60, 101.39, 76.54, -481.60, 101.39, 59.51, -481.60, 101.39, 42.49, -481.60, 101.39, 25.47, -481.60, 101.39, 8.45, -481.60, 101.39, -8.57, -481.60, 101.39, -25.59, -481.60, 101.39, -42.61, -481.60, 101.39, -59.63, -481.60, 101.39, -76.65, -481.60, 101.39, -93.67, -481.60, 101.39, -110.69, -481.60, 101.39, -127.71, -481.60, 101.39, -144.73, -481.60, 101.39, -161.76, -481.60, 101.39, -178.78, -481.60, 101.39, -195.80, -481.60, 101.39, -212.82, -481.60, 101.39, -229.84, -481.60, 101.39, -246.86, -481.60, 101.39, -263.88, -481.60, 101.39, -280.90, -481.60, 101.39, -297.92, -481.60, 101.39, -314.94, -481.60, 101.39, -331.96, -481.60, 101.39, -348.98, -481.60, 101.39, -366.00, -481.60, 101.39, -383.02, -481.60, 101.39, -400.05, -481.60, 101.39, -417.07, -481.60, 101.39, -434.09, -481.60, 101.39, -451.11, -481.60, 101.39, -468.13, -481.60, 101.39, -484.92, -481.60, 101.39, -501.94, -358.44, 120.56, 498.06, -358.44, 120.56, 481.04, -358.44, 120.56, 464.02, -358.44, 120.56, 447.00, -358.44, 120.56, 429.98, -358.44, 120.56, 412.96, -358.44, 120.56, 395.94, -358.44, 120.56, 378.92, -358.44, 120.56, 361.90, -358.44, 120.56, 344.88, -358.44, 120.56, 327.86, -358.44, 120.56, 310.84, -358.44, 120.56, 293.82, -358.44, 120.56, 276.79, -358.44, 120.56, 259.77, -358.44, 120.56, 242.75, -358.44, 120.56, 225.73, -358.44, 120.56, 208.71, -358.44, 120.56, 191.69, -358.44, 120.56, 174.67, -358.44, 120.56, 157.65, -358.44, 120.56, 140.63, -358.44, 120.56, 123.61, -358.44, 120.56, 106.59, -358.44, 120.56, 89.57, -358.44, 120.56, 72.55, -358.44, 120.56, 55.53, -358.44, 120.56, 38.50, -358.44, 120.56, 21.48, -358.44, 120.56, 4.46, -358.44, 120.56, -12.56, -358.44, 120.56, -29.58, -358.44, 120.56, -46.60, -358.44, 120.56, -63.62, -358.44, 120.56, -80.64, -358.44, 120.56, -97.66, -358.44, 120.56, -114.68, -358.44, 120.56, -131.70, -358.44, 120.56, -148.72, -358.44, 120.56, -165.74, -358.44, 120.56, -182.77, -358.44, 120.56, -199.79, -358.44, 120.56, -216.81, -358.44, 120.56, -233.83, -358.44, 120.56, -250.85, -358.44, 120.56, -267.87, -358.44, 120.56, -284.89, -358.44, 120.56, -301.91, -358.44, 120.56, -318.93, -358.44, 120.56, -335.95, -358.44, 120.56, -352.97, -358.44, 120.56, -369.99, -358.44, 120.56, -387.01, -358.44, 120.56, -404.04, -358.44, 120.56, -421.06, -358.44, 120.56, -438.08, -358.44, 120.56, -455.10, -358.44, 120.56, -472.12, -358.44, 120.56, -489.14, -358.44, 120.56, -506.16, -234.95, 140.44, 500.06, -234.95, 140.44, 483.04, -234.95, 140.44, 466.02, -234.95, 140.44, 449.00, -234.95, 140.44, 431.98, -234.95, 140.44, 414.96, -234.95, 140.44, 397.94, -234.95, 140.44, 380.92, -234.95, 140.44, 363.90, -234.95, 140.44, 346.88, -234.95, 140.44, 329.86, -234.95, 140.44, 312.84, -234.95, 140.44, 295.82, -234.95, 140.44, 278.79, -234.95, 140.44, 261.77, -234.95, 140.44, 244.75, -234.95, 140.44, 227.73, -234.95, 140.44, 210.71, -234.95, 140.44, 193.69, -234.95, 140.44, 176.67, -234.95, 140.44, 159.65, -234.95, 140.44, 142.63, -234.95, 140.44, 125.61, -234.95, 140.44, 108.59, -234.95, 140.44, 91.57, -234.95, 140.44, 74.55, -234.95, 140.44, 57.53, -234.95, 140.44, 40.50, -234.95, 140.44, 23.48, -234.95, 140.44, 6.46, -234.95, 140.44, -10.56, -234.95, 140.44, -27.58, -234.95, 140.44, -44.60, -234.95, 140.44, -61.62, -234.95, 140.44, -78.64, -234.95, 140.44, -95.66, -234.95, 140.44, -112.68, -234.95, 140.44, -129.70, -234.95, 140.44, -146.72, -234.95, 140.44, -163.74, -234.95, 140.44, -180.77, -234.95, 140.44, -197.79, -234.95, 140.44, -214.81, -234.95, 140.44, -231.83, -234.95, 140.44, -248.85, -234.95, 140.44, -265.87, -234.95, 140.44, -282.89, -234.95, 140.44, -299.91, -234.95, 140.44, -316.93, -234.95, 140.44, -333.95, -234.95, 140.44, -350.97, -234.95, 140.44, -367.99, -234.95, 140.44, -385.01, -234.95, 140.44, -402.04, -234.95, 140.44, -419.06, -234.95, 140.44, -436.08, -234.95, 140.44, -453.10, -234.95, 140.44, -470.12, -234.95, 140.44, -487.14, -234.95, 140.44, -504.16, -111.51, 159.98, 500.53, -111.51, 159.98, 483.51, -111.51, 159.98, 466.49, -111.51, 159.98, 449.47, -111.51, 159.98, 432.45, -111.51, 159.98, 415.43, -111.51, 159.98, 398.41, -111.51, 159.98, 381.39, -111.51, 159.98, 364.37, -111.51, 159.98, 347.35, -111.51, 159.98, 330.33, -111.51, 159.98, 313.31, -111.51, 159.98, 296.29, -111.51, 159.98, 279.26, -111.51, 159.98, 262.24, -111.51, 159.98, 245.22, -111.51, 159.98, 228.20, -111.51, 159.98, 211.18, -111.51, 159.98, 194.16, -111.51, 159.98, 177.14, -111.51, 159.98, 160.12, -111.51, 159.98, 143.10, -111.51, 159.98, 126.08, -111.51, 159.98, 109.06, -111.51, 159.98, 92.04, -111.51, 159.98, 75.02, -111.51, 159.98, 58.00, -111.51, 159.98, 40.97, -111.51, 159.98, 23.95, -111.51, 159.98, 6.93, -111.51, 159.98, -10.09, -111.51, 159.98, -27.11, -111.51, 159.98, -44.13, -111.51, 159.98, -61.15, -111.51, 159.98, -78.17, -111.51, 159.98, -95.19, -111.51, 159.98, -112.21, -111.51, 159.98, -129.23, -111.51, 159.98, -146.25, -111.51, 159.98, -163.27, -111.51, 159.98, -180.30, -111.51, 159.98, -197.32, -111.51, 159.98, -214.34, -111.51, 159.98, -231.36, -111.51, 159.98, -248.38, -111.51, 159.98, -265.40, -111.51, 159.98, -282.42, -111.51, 159.98, -299.44, -111.51, 159.98, -316.46, -111.51, 159.98, -333.48, -111.51, 159.98, -350.50, -111.51, 159.98, -367.52, -111.51, 159.98, -384.54, -111.51, 159.98, -401.57, -111.51, 159.98, -418.59, -111.51, 159.98, -435.61, -111.51, 159.98, -452.63, -111.51, 159.98, -469.65, -111.51, 159.98, -486.67, -111.51, 159.98, -503.69, 11.87, 179.19, 502.34, 11.87, 179.19, 485.32, 11.87, 179.19, 468.30, 11.87, 179.19, 451.28, 11.87, 179.19, 434.26, 11.87, 179.19, 417.24, 11.87, 179.19, 400.22, 11.87, 179.19, 383.20, 11.87, 179.19, 366.18, 11.87, 179.19, 349.16, 11.87, 179.19, 332.14, 11.87, 179.19, 315.12, 11.87, 179.19, 298.10, 11.87, 179.19, 281.07, 11.87, 179.19, 264.05, 11.87, 179.19, 247.03, 11.87, 179.19, 230.01, 11.87, 179.19, 212.99, 11.87, 179.19, 195.97, 11.87, 179.19, 178.95, 11.87, 179.19, 161.93, 11.87, 179.19, 144.91, 11.87, 179.19, 127.89, 11.87, 179.19, 110.87, 11.87, 179.19, 93.85, 11.87, 179.19, 76.83, 11.87, 179.19, 59.80, 11.87, 179.19, 42.78, 11.87, 179.19, 25.76, 11.87, 179.19, 8.74, 11.87, 179.19, -8.28, 11.87, 179.19, -25.30, 11.87, 179.19, -42.32, 11.87, 179.19, -59.34, 11.87, 179.19, -76.36, 11.87, 179.19, -93.38, 11.87, 179.19, -110.40, 11.87, 179.19, -127.42, 11.87, 179.19, -144.44, 11.87, 179.19, -161.47, 11.87, 179.19, -178.49, 11.87, 179.19, -195.51, 11.87, 179.19, -212.53, 11.87, 179.19, -229.55, 11.87, 179.19, -246.57, 11.87, 179.19, -263.59, 11.87, 179.19, -280.61, 11.87, 179.19, -297.63, 11.87, 179.19, -314.65, 11.87, 179.19, -331.67, 11.87, 179.19, -348.69, 11.87, 179.19, -365.71, 11.87, 179.19, -382.74, 11.87, 179.19, -399.76, 11.87, 179.19, -416.78, 11.87, 179.19, -433.80, 11.87, 179.19, -450.32, 11.87, 179.19, -467.34, 11.87, 179.19, -484.36, 11.87, 179.19, -501.58, 132.03, 202.98, 502.74, 132.03, 202.98, 485.72, 132.03, 202.98, 468.69, 132.03, 202.98, 451.67, 132.03, 202.98, 434.65, 132.03, 202.98, 417.63, 132.03, 202.98, 400.61, 132.03, 202.98, 383.59, 132.03, 202.98, 366.57, 132.03, 202.98, 349.55, 132.03, 202.98, 332.53, 132.03, 202.98, 315.51, 132.03, 202.98, 298.49, 132.03, 202.98, 281.47, 132.03, 202.98, 264.45, 132.03, 202.98, 247.42, 132.03, 202.98, 230.40, 132.03, 202.98, 213.38, 132.03, 202.98, 196.36, 132.03, 202.98, 179.34, 132.03, 202.98, 162.32, 132.03, 202.98, 145.30, 132.03, 202.98, 128.28, 132.03, 202.98, 111.26, 132.03, 202.98, 94.24, 132.03, 202.98, 77.22, 132.03, 202.98, 60.20, 132.03, 202.98, 43.18, 132.03, 202.98, 26.15, 132.03, 202.98, 9.13, 132.03, 202.98, -7.89, 132.03, 202.98, -24.91, 132.03, 202.98, -41.93, 132.03, 202.98, -58.95, 132.03, 202.98, -75.97, 132.03, 202.98, -92.99, 132.03, 202.98, -110.01, 132.03, 202.98, -127.03, 132.03, 202.98, -144.05, 132.03, 202.98, -161.07, 132.03, 202.98, -178.09, 132.03, 202.98, -195.12, 132.03, 202.98, -212.14, 132.03, 202.98, -229.16, 132.03, 202.98, -246.18, 132.03, 202.98, -263.20, 132.03, 202.98, -280.22, 132.03, 202.98, -297.24, 132.03, 202.98, -314.26, 132.03, 202.98, -331.28, 132.03, 202.98, -348.30, 132.03, 202.98, -365.32, 132.03, 202.98, -382.34, 132.03, 202.98, -399.36, 132.03, 202.98, -416.39, 132.03, 202.98, -433.41, 132.03, 202.98, -450.43, 132.03, 202.98, -467.45, 132.03, 202.98, -484.47, 132.03, 202.98, -502.39, 257.31, 211.66, 504.43, 257.31, 211.66, 487.40, 257.31, 211.66, 470.38, 257.31, 211.66, 453.36, 257.31, 211.66, 436.34, 257.31, 211.66, 419.32, 257.31, 211.66, 402.30, 257.31, 211.66, 385.28, 257.31, 211.66, 368.26, 257.31, 211.66, 351.24, 257.31, 211.66, 334.22, 257.31, 211.66, 317.20, 257.31, 211.66, 300.18, 257.31, 211.66, 283.16, 257.31, 211.66, 266.13, 257.31, 211.66, 249.11, 257.31, 211.66, 232.09, 257.31, 211.66, 215.07, 257.31, 211.66, 198.05, 257.31, 211.66, 181.03, 257.31, 211.66, 164.01, 257.31, 211.66, 146.99, 257.31, 211.66, 129.97, 257.31, 211.66, 112.95, 257.31, 211.66, 95.93, 257.31, 211.66, 78.91, 257.31, 211.66, 61.89, 257.31, 211.66, 44.86, 257.31, 211.66, 27.84, 257.31, 211.66, 10.82, 257.31, 211.66, -6.20, 257.31, 211.66, -23.22, 257.31, 211.66, -40.24, 257.31, 211.66, -57.26, 257.31, 211.66, -74.28, 257.31, 211.66, -91.30, 257.31, 211.66, -108.32, 257.31, 211.66, -125.34, 257.31, 211.66, -142.36, 257.31, 211.66, -159.38, 257.31, 211.66, -176.41, 257.31, 211.66, -193.43, 257.31, 211.66, -210.45, 257.31, 211.66, -227.47, 257.31, 211.66, -244.49, 257.31, 211.66, -261.51, 257.31, 211.66, -278.53, 257.31, 211.66, -295.55, 257.31, 211.66, -312.57, 257.31, 211.66, -329.59, 257.31, 211.66, -346.61, 257.31, 211.66, -363.63, 257.31, 211.66, -380.65, 257.31, 211.66, -397.67, 257.31, 211.66, -414.70, 257.31, 211.66, -431.72, 257.31, 211.66, -448.74, 257.31, 211.66, -465.76, 257.31, 211.66, -482.78, 257.31, 211.66, -500.20, 382.35, 238.90, 498.54, 382.35, 238.90, 481.52, 382.35, 238.90, 464.50, 382.35, 238.90, 447.48, 382.35, 238.90, 430.46, 382.35, 238.90, 413.44, 382.35, 238.90, 396.42, 382.35, 238.90, 379.40, 382.35, 238.90, 362.38, 382.35, 238.90, 345.36, 382.35, 238.90, 328.34, 382.35, 238.90, 311.32, 382.35, 238.90, 294.30, 382.35, 238.90, 277.27, 382.35, 238.90, 260.25, 382.35, 238.90, 243.23, 382.35, 238.90, 226.21, 382.35, 238.90, 209.19, 382.35, 238.90, 192.17, 382.35, 238.90, 175.15, 382.35, 238.90, 158.13, 382.35, 238.90, 141.11, 382.35, 238.90, 124.09, 382.35, 238.90, 107.07, 382.35, 238.90, 90.05, 382.35, 238.90, 73.03, 382.35, 238.90, 56.01, 382.35, 238.90, 38.98, 382.35, 238.90, 21.96, 382.35, 238.90, 4.94, 382.35, 238.90, -12.08, 382.35, 238.90, -29.10, 382.35, 238.90, -46.12, 382.35, 238.90, -63.14, 382.35, 238.90, -80.16, 382.35, 238.90, -97.18, 382.35, 238.90, -114.20, 382.35, 238.90, -131.22, 382.35, 238.90, -148.24, 382.35, 238.90, -165.26, 382.35, 238.90, -182.29, 382.35, 238.90, -199.31, 382.35, 238.90, -216.33, 382.35, 238.90, -233.35, 382.35, 238.90, -250.37, 382.35, 238.90, -267.39, 382.35, 238.90, -284.41, 382.35, 238.90, -301.43, 382.35, 238.90, -318.45, 382.35, 238.90, -335.47, 382.35, 238.90, -352.49, 382.35, 238.90, -369.51, 382.35, 238.90, -386.53, 382.35, 238.90, -403.56, 382.35, 238.90, -420.58, 382.35, 238.90, -437.60, 382.35, 238.90, -454.62, 382.35, 238.90, -471.64, 382.35, 238.90, -488.66, 382.35, 238.90, -505.68, 505.27, 257.88, 506.23, 505.27, 257.88, 489.21, 505.27, 257.88, 472.19, 505.27, 257.88, 455.17, 505.27, 257.88, 438.15, 505.27, 257.88, 421.13, 505.27, 257.88, 404.11, 505.27, 257.88, 387.09, 505.27, 257.88, 370.07, 505.27, 257.88, 353.05, 505.27, 257.88, 336.03, 505.27, 257.88, 319.01, 505.27, 257.88, 301.99, 505.27, 257.88, 284.96, 505.27, 257.88, 267.94, 505.27, 257.88, 250.92, 505.27, 257.88, 233.90, 505.27, 257.88, 216.88, 505.27, 257.88, 199.86, 505.27, 257.88, 182.84, 505.27, 257.88, 165.82, 505.27, 257.88, 148.80, 505.27, 257.88, 131.78, 505.27, 257.88, 114.76, 505.27, 257.88, 97.74, 505.27, 257.88, 80.72, 505.27, 257.88, 63.70, 505.27, 257.88, 46.67, 505.27, 257.88, 29.65, 505.27, 257.88, 12.63, 505.27, 257.88, -4.39, 505.27, 257.88, -21.41, 505.27, 257.88, -38.43, 505.27, 257.88, -55.45, 505.27, 257.88, -72.47, 505.27, 257.88, -89.49, 505.27, 257.88, -106.51, 505.27, 257.88, -123.53, 505.27, 257.88, -140.55, 505.27, 257.88, -157.57, 505.27, 257.88, -174.60, 505.27, 257.88, -191.62, 505.27, 257.88, -208.64, 505.27, 257.88, -225.66, 505.27, 257.88, -242.68, 505.27, 257.88, -259.70, 505.27, 257.88, -276.72, 505.27, 257.88, -293.74, 505.27, 257.88, -310.76, 505.27, 257.88, -327.78, 505.27, 257.88, -344.80, 505.27, 257.88, -361.82, 505.27, 257.88, -378.84, 505.27, 257.88, -395.87, 505.27, 257.88, -412.89, 505.27, 257.88, -429.91, 505.27, 257.88, -446.93, 505.27, 257.88, -463.95, 505.27, 257.88, -480.97, 505.27, 257.88, -497.99, -437.04, 217.80, 501.47, -437.04, 217.80, 484.44, -437.04, 217.80, 467.77, -437.04, 217.80, 450.40, -437.04, 217.80, 433.38, -437.04, 217.80, 416.36, -437.04, 217.80, 399.34, -437.04, 217.80, 382.32, -437.04, 217.80, 365.30, -437.04, 217.80, 348.28, -437.04, 217.80, 331.26, -437.04, 217.80, 314.24, -437.04, 217.80, 297.22, -437.04, 217.80, 280.20, -437.04, 217.80, 263.18, -437.04, 217.80, 246.15, -437.04, 217.80, 229.13, -437.04, 217.80, 212.11, -437.04, 217.80, 195.09, -437.04, 217.80, 178.07, -437.04, 217.80, 161.05, -437.04, 217.80, 144.03, -437.04, 217.80, 127.01, -437.04, 217.80, 109.99, -437.04, 217.80, 92.97, -437.04, 217.80, 75.95, -437.04, 217.80, 58.93, -437.04, 217.80, 41.91, -437.04, 217.80, 24.88, -437.04, 217.80, 7.86, -437.04, 217.80, -9.16, -437.04, 217.80, -26.18, -437.04, 217.80, -43.20, -437.04, 217.80, -60.22, -437.04, 217.80, -77.24, -437.04, 217.80, -94.26, -437.04, 217.80, -111.28, -437.04, 217.80, -128.30, -437.04, 217.80, -145.32, -437.04, 217.80, -162.34, -437.04, 217.80, -179.36, -437.04, 217.80, -196.39, -437.04, 217.80, -213.41, -437.04, 217.80, -230.43, -437.04, 217.80, -247.45, -437.04, 217.80, -264.47, -437.04, 217.80, -281.49, -437.04, 217.80, -298.51, -437.04, 217.80, -315.53, -437.04, 217.80, -332.55, -437.04, 217.80, -349.57, -437.04, 217.80, -366.59, -437.04, 217.80, -383.61, -437.04, 217.80, -400.63, -437.04, 217.80, -417.66, -437.04, 217.80, -434.68, -437.04, 217.80, -451.70, -437.04, 217.80, -468.72, -437.04, 217.80, -485.74, -437.04, 217.80, -503.46, -313.60, 237.44, 501.19, -313.60, 237.44, 484.17, -313.60, 237.44, 467.15, -313.60, 237.44, 450.13, -313.60, 237.44, 433.11, -313.60, 237.44, 416.09, -313.60, 237.44, 399.07, -313.60, 237.44, 382.05, -313.60, 237.44, 365.03, -313.60, 237.44, 348.01, -313.60, 237.44, 330.99, -313.60, 237.44, 313.97, -313.60, 237.44, 296.95, -313.60, 237.44, 279.92, -313.60, 237.44, 262.90, -313.60, 237.44, 245.88, -313.60, 237.44, 228.86, -313.60, 237.44, 211.84, -313.60, 237.44, 194.82, -313.60, 237.44, 177.80, -313.60, 237.44, 160.78, -313.60, 237.44, 143.76, -313.60, 237.44, 126.74, -313.60, 237.44, 109.72, -313.60, 237.44, 92.70, -313.60, 237.44, 75.68, -313.60, 237.44, 58.66, -313.60, 237.44, 41.63, -313.60, 237.44, 24.61, -313.60, 237.44, 7.59, -313.60, 237.44, -9.43, -313.60, 237.44, -26.45, -313.60, 237.44, -43.47, -313.60, 237.44, -60.49, -313.60, 237.44, -77.51, -313.60, 237.44, -94.53, -313.60, 237.44, -111.55, -313.60, 237.44, -128.57, -313.60, 237.44, -145.59, -313.60, 237.44, -162.61, -313.60, 237.44, -179.64, -313.60, 237.44, -196.66, -313.60, 237.44, -213.68, -313.60, 237.44, -230.70, -313.60, 237.44, -247.72, -313.60, 237.44, -264.74, -313.60, 237.44, -281.76, -313.60, 237.44, -298.78, -313.60, 237.44, -315.80, -313.60, 237.44, -332.82, -313.60, 237.44, -349.84, -313.60, 237.44, -366.86, -313.60, 237.44, -383.88, -313.60, 237.44, -400.91, -313.60, 237.44, -417.93, -313.60, 237.44, -434.95, -313.60, 237.44, -451.97, -313.60, 237.44, -468.99, -313.60, 237.44, -486.01, -313.60, 237.44, -503.03, -189.98, 257.42, 501.35, -189.98, 257.42, 484.33, -189.98, 257.42, 467.31, -189.98, 257.42, 450.29, -189.98, 257.42, 433.27, -189.98, 257.42, 416.45, -189.98, 257.42, 399.23, -189.98, 257.42, 382.46, -189.98, 257.42, 365.19, -189.98, 257.42, 348.17, -189.98, 257.42, 331.15, -189.98, 257.42, 314.13, -189.98, 257.42, 297.11, -189.98, 257.42, 280.08, -189.98, 257.42, 263.06, -189.98, 257.42, 246.24, -189.98, 257.42, 229.02, -189.98, 257.42, 212.20, -189.98, 257.42, 194.98, -189.98, 257.42, 178.21, -189.98, 257.42, 160.94, -189.98, 257.42, 143.92, -189.98, 257.42, 126.90, -189.98, 257.42, 109.88, -189.98, 257.42, 92.86, -189.98, 257.42, 75.84, -189.98, 257.42, 58.82, -189.98, 257.42, 41.79, -189.98, 257.42, 24.77, -189.98, 257.42, 7.75, -189.98, 257.42, -9.27, -189.98, 257.42, -26.29, -189.98, 257.42, -43.31, -189.98, 257.42, -60.33, -189.98, 257.42, -77.35, -189.98, 257.42, -94.37, -189.98, 257.42, -111.39, -189.98, 257.42, -128.41, -189.98, 257.42, -145.43, -189.98, 257.42, -162.20, -189.98, 257.42, -179.48, -189.98, 257.42, -196.50, -189.98, 257.42, -213.52, -189.98, 257.42, -230.54, -189.98, 257.42, -247.56, -189.98, 257.42, -264.58, -189.98, 257.42, -281.60, -189.98, 257.42, -298.62, -189.98, 257.42, -315.64, -189.98, 257.42, -332.66, -189.98, 257.42, -349.68, -189.98, 257.42, -366.70, -189.98, 257.42, -383.72, -189.98, 257.42, -400.75, -189.98, 257.42, -417.77, -189.98, 257.42, -434.79, -189.98, 257.42, -451.81, -189.98, 257.42, -468.83, -189.98, 257.42, -485.85, -189.98, 257.42, -502.87, -66.70, 276.92, 497.82, -66.70, 276.92, 480.80, -66.70, 276.92, 463.78, -66.70, 276.92, 446.76, -66.70, 276.92, 429.74, -66.70, 276.92, 412.72, -66.70, 276.92, 395.70, -66.70, 276.92, 378.68, -66.70, 276.92, 361.66, -66.70, 276.92, 344.64, -66.70, 276.92, 327.62, -66.70, 276.92, 310.60, -66.70, 276.92, 293.58, -66.70, 276.92, 276.55, -66.70, 276.92, 259.53, -66.70, 276.92, 242.51, -66.70, 276.92, 225.49, -66.70, 276.92, 208.47, -66.70, 276.92, 191.45, -66.70, 276.92, 174.43, -66.70, 276.92, 157.41, -66.70, 276.92, 140.39, -66.70, 276.92, 123.37, -66.70, 276.92, 106.35, -66.70, 276.92, 89.33, -66.70, 276.92, 72.31, -66.70, 276.92, 55.29, -66.70, 276.92, 38.26, -66.70, 276.92, 21.24, -66.70, 276.92, 4.22, -66.70, 276.92, -12.80, -66.70, 276.92, -29.82, -66.70, 276.92, -46.84, -66.70, 276.92, -63.86, -66.70, 276.92, -80.88, -66.70, 276.92, -97.90, -66.70, 276.92, -114.92, -66.70, 276.92, -131.94, -66.70, 276.92, -148.96, -66.70, 276.92, -165.98, -66.70, 276.92, -183.01, -66.70, 276.92, -200.03, -66.70, 276.92, -217.05, -66.70, 276.92, -234.07, -66.70, 276.92, -251.09, -66.70, 276.92, -268.11, -66.70, 276.92, -285.13, -66.70, 276.92, -302.15, -66.70, 276.92, -319.17, -66.70, 276.92, -336.19, -66.70, 276.92, -353.21, -66.70, 276.92, -370.23, -66.70, 276.92, -387.25, -66.70, 276.92, -404.28, -66.70, 276.92, -421.30, -66.70, 276.92, -438.32, -66.70, 276.92, -455.34, -66.70, 276.92, -472.36, -66.70, 276.92, -489.38, -66.70, 276.92, -506.40, 54.26, 292.97, 524.56, 54.26, 292.97, 507.53, 54.26, 292.97, 490.51, 54.26, 292.97, 473.49, 54.26, 292.97, 456.47, 54.26, 292.97, 439.45, 54.26, 292.97, 422.43, 54.26, 292.97, 405.41, 54.26, 292.97, 388.39, 54.26, 292.97, 371.37, 54.26, 292.97, 354.35, 54.26, 292.97, 337.33, 54.26, 292.97, 320.31, 54.26, 292.97, 303.29, 54.26, 292.97, 286.26, 54.26, 292.97, 269.24, 54.26, 292.97, 252.22, 54.26, 292.97, 235.20, 54.26, 292.97, 218.18, 54.26, 292.97, 201.16, 54.26, 292.97, 184.14, 54.26, 292.97, 167.12, 54.26, 292.97, 150.10, 54.26, 292.97, 133.08, 54.26, 292.97, 116.06, 54.26, 292.97, 99.04, 54.26, 292.97, 82.02, 54.26, 292.97, 64.99, 54.26, 292.97, 47.97, 54.26, 292.97, 30.95, 54.26, 292.97, 13.93, 54.26, 292.97, -3.09, 54.26, 292.97, -20.11, 54.26, 292.97, -37.13, 54.26, 292.97, -54.15, 54.26, 292.97, -71.17, 54.26, 292.97, -88.19, 54.26, 292.97, -105.21, 54.26, 292.97, -122.23, 54.26, 292.97, -139.25, 54.26, 292.97, -156.28, 54.26, 292.97, -173.30, 54.26, 292.97, -190.32, 54.26, 292.97, -207.34, 54.26, 292.97, -224.36, 54.26, 292.97, -241.38, 54.26, 292.97, -258.40, 54.26, 292.97, -275.42, 54.26, 292.97, -292.44, 54.26, 292.97, -309.46, 54.26, 292.97, -326.48, 54.26, 292.97, -343.50, 54.26, 292.97, -360.52, 54.26, 292.97, -377.54, 54.26, 292.97, -394.57, 54.26, 292.97, -411.59, 54.26, 292.97, -428.61, 54.26, 292.97, -445.63, 54.26, 292.97, -462.65, 54.26, 292.97, -480.07, 174.47, 315.54, 512.74, 174.47, 315.54, 495.72, 174.47, 315.54, 478.70, 174.47, 315.54, 461.68, 174.47, 315.54, 444.66, 174.47, 315.54, 427.64, 174.47, 315.54, 410.62, 174.47, 315.54, 393.60, 174.47, 315.54, 376.58, 174.47, 315.54, 359.56, 174.47, 315.54, 342.54, 174.47, 315.54, 325.52, 174.47, 315.54, 308.50, 174.47, 315.54, 291.47, 174.47, 315.54, 274.45, 174.47, 315.54, 257.43, 174.47, 315.54, 240.41, 174.47, 315.54, 223.39, 174.47, 315.54, 206.37, 174.47, 315.54, 189.35, 174.47, 315.54, 172.33, 174.47, 315.54, 155.31, 174.47, 315.54, 138.29, 174.47, 315.54, 121.27, 174.47, 315.54, 104.25, 174.47, 315.54, 87.23, 174.47, 315.54, 70.21, 174.47, 315.54, 53.18, 174.47, 315.54, 36.16, 174.47, 315.54, 19.14, 174.47, 315.54, 2.12, 174.47, 315.54, -14.90, 174.47, 315.54, -31.92, 174.47, 315.54, -48.94, 174.47, 315.54, -65.96, 174.47, 315.54, -82.98, 174.47, 315.54, -100.00, 174.47, 315.54, -117.02, 174.47, 315.54, -134.04, 174.47, 315.54, -151.06, 174.47, 315.54, -168.09, 174.47, 315.54, -185.11, 174.47, 315.54, -202.13, 174.47, 315.54, -219.15, 174.47, 315.54, -236.17, 174.47, 315.54, -253.19, 174.47, 315.54, -270.21, 174.47, 315.54, -287.23, 174.47, 315.54, -304.25, 174.47, 315.54, -321.27, 174.47, 315.54, -338.29, 174.47, 315.54, -355.31, 174.47, 315.54, -372.33, 174.47, 315.54, -389.36, 174.47, 315.54, -406.38, 174.47, 315.54, -423.40, 174.47, 315.54, -440.42, 174.47, 315.54, -457.44, 174.47, 315.54, -474.46, 174.47, 315.54, -491.48, 303.41, 335.64, 512.95, 303.41, 335.64, 495.93, 303.41, 335.64, 478.91, 303.41, 335.64, 461.89, 303.41, 335.64, 444.87, 303.41, 335.64, 427.85, 303.41, 335.64, 410.83, 303.41, 335.64, 393.81, 303.41, 335.64, 376.79, 303.41, 335.64, 359.77, 303.41, 335.64, 342.75, 303.41, 335.64, 325.73, 303.41, 335.64, 308.71, 303.41, 335.64, 291.68, 303.41, 335.64, 274.66, 303.41, 335.64, 257.64, 303.41, 335.64, 240.62, 303.41, 335.64, 223.60, 303.41, 335.64, 206.58, 303.41, 335.64, 189.56, 303.41, 335.64, 172.54, 303.41, 335.64, 155.52, 303.41, 335.64, 138.50, 303.41, 335.64, 121.48, 303.41, 335.64, 104.46, 303.41, 335.64, 87.44, 303.41, 335.64, 70.42, 303.41, 335.64, 53.39, 303.41, 335.64, 36.37, 303.41, 335.64, 19.35, 303.41, 335.64, 2.33, 303.41, 335.64, -14.69, 303.41, 335.64, -31.71, 303.41, 335.64, -48.73, 303.41, 335.64, -65.75, 303.41, 335.64, -82.77, 303.41, 335.64, -99.79, 303.41, 335.64, -116.81, 303.41, 335.64, -133.83, 303.41, 335.64, -150.85, 303.41, 335.64, -167.88, 303.41, 335.64, -184.90, 303.41, 335.64, -201.92, 303.41, 335.64, -218.94, 303.41, 335.64, -235.96, 303.41, 335.64, -252.98, 303.41, 335.64, -270.00, 303.41, 335.64, -287.02, 303.41, 335.64, -304.04, 303.41, 335.64, -321.06, 303.41, 335.64, -338.08, 303.41, 335.64, -355.10, 303.41, 335.64, -372.12, 303.41, 335.64, -389.15, 303.41, 335.64, -406.17, 303.41, 335.64, -423.19, 303.41, 335.64, -440.21, 303.41, 335.64, -457.23, 303.41, 335.64, -474.25, 303.41, 335.64, -491.27, 429.76, 351.02, 506.14, 429.76, 351.02, 489.12, 429.76, 351.02, 472.10, 429.76, 351.02, 455.08, 429.76, 351.02, 438.06, 429.76, 351.02, 421.04, 429.76, 351.02, 404.02, 429.76, 351.02, 387.00, 429.76, 351.02, 369.98, 429.76, 351.02, 352.96, 429.76, 351.02, 335.94, 429.76, 351.02, 318.92, 429.76, 351.02, 301.90, 429.76, 351.02, 284.87, 429.76, 351.02, 267.85, 429.76, 351.02, 250.83, 429.76, 351.02, 233.81, 429.76, 351.02, 216.79, 429.76, 351.02, 199.77, 429.76, 351.02, 182.75, 429.76, 351.02, 165.73, 429.76, 351.02, 148.71, 429.76, 351.02, 131.69, 429.76, 351.02, 114.67, 429.76, 351.02, 97.65, 429.76, 351.02, 80.63, 429.76, 351.02, 63.61, 429.76, 351.02, 46.58, 429.76, 351.02, 29.56, 429.76, 351.02, 12.54, 429.76, 351.02, -4.48, 429.76, 351.02, -21.50, 429.76, 351.02, -38.52, 429.76, 351.02, -55.54, 429.76, 351.02, -72.56, 429.76, 351.02, -89.58, 429.76, 351.02, -106.60, 429.76, 351.02, -123.62, 429.76, 351.02, -140.64, 429.76, 351.02, -157.66, 429.76, 351.02, -174.69, 429.76, 351.02, -191.71, 429.76, 351.02, -208.73, 429.76, 351.02, -225.75, 429.76, 351.02, -242.77, 429.76, 351.02, -259.79, 429.76, 351.02, -276.81, 429.76, 351.02, -293.83, 429.76, 351.02, -310.85, 429.76, 351.02, -327.87, 429.76, 351.02, -344.89, 429.76, 351.02, -361.91, 429.76, 351.02, -378.93, 429.76, 351.02, -395.96, 429.76, 351.02, -412.98, 429.76, 351.02, -430.00, 429.76, 351.02, -447.02, 429.76, 351.02, -464.04, 429.76, 351.02, -481.06, 429.76, 351.02, -498.08, -392.38, 334.24, 502.79, -392.38, 334.24, 485.77, -392.38, 334.24, 468.75, -392.38, 334.24, 451.73, -392.38, 334.24, 434.71, -392.38, 334.24, 417.69, -392.38, 334.24, 400.67, -392.38, 334.24, 383.65, -392.38, 334.24, 366.63, -392.38, 334.24, 349.61, -392.38, 334.24, 332.59, -392.38, 334.24, 315.57, -392.38, 334.24, 298.55, -392.38, 334.24, 281.52, -392.38, 334.24, 264.50, -392.38, 334.24, 247.48, -392.38, 334.24, 230.46, -392.38, 334.24, 213.44, -392.38, 334.24, 196.42, -392.38, 334.24, 179.40, -392.38, 334.24, 162.38, -392.38, 334.24, 145.36, -392.38, 334.24, 128.34, -392.38, 334.24, 111.32, -392.38, 334.24, 94.30, -392.38, 334.24, 77.28, -392.38, 334.24, 60.26, -392.38, 334.24, 43.23, -392.38, 334.24, 26.21, -392.38, 334.24, 9.19, -392.38, 334.24, -7.83, -392.38, 334.24, -24.85, -392.38, 334.24, -41.87, -392.38, 334.24, -58.89, -392.38, 334.24, -75.91, -392.38, 334.24, -92.93, -392.38, 334.24, -109.95, -392.38, 334.24, -126.97, -392.38, 334.24, -143.99, -392.38, 334.24, -161.01, -392.38, 334.24, -178.04, -392.38, 334.24, -195.06, -392.38, 334.24, -212.08, -392.38, 334.24, -229.10, -392.38, 334.24, -246.12, -392.38, 334.24, -263.14, -392.38, 334.24, -280.16, -392.38, 334.24, -297.18, -392.38, 334.24, -314.20, -392.38, 334.24, -331.22, -392.38, 334.24, -348.24, -392.38, 334.24, -365.26, -392.38, 334.24, -382.28, -392.38, 334.24, -399.31, -392.38, 334.24, -416.33, -392.38, 334.24, -433.35, -392.38, 334.24, -450.37, -392.38, 334.24, -467.39, -392.38, 334.24, -484.41, -392.38, 334.24, -501.43, -268.90, 354.24, 501.54, -268.90, 354.24, 484.51, -268.90, 354.24, 467.49, -268.90, 354.24, 450.47, -268.90, 354.24, 433.45, -268.90, 354.24, 416.43, -268.90, 354.24, 399.41, -268.90, 354.24, 382.39, -268.90, 354.24, 365.37, -268.90, 354.24, 348.35, -268.90, 354.24, 331.33, -268.90, 354.24, 314.31, -268.90, 354.24, 297.29, -268.90, 354.24, 280.27, -268.90, 354.24, 263.24, -268.90, 354.24, 246.22, -268.90, 354.24, 229.20, -268.90, 354.24, 212.18, -268.90, 354.24, 195.16, -268.90, 354.24, 178.14, -268.90, 354.24, 161.12, -268.90, 354.24, 144.10, -268.90, 354.24, 127.08, -268.90, 354.24, 110.06, -268.90, 354.24, 93.04, -268.90, 354.24, 76.02, -268.90, 354.24, 59.00, -268.90, 354.24, 41.97, -268.90, 354.24, 24.95, -268.90, 354.24, 7.93, -268.90, 354.24, -9.09, -268.90, 354.24, -26.11, -268.90, 354.24, -43.13, -268.90, 354.24, -60.15, -268.90, 354.24, -77.17, -268.90, 354.24, -94.19, -268.90, 354.24, -111.21, -268.90, 354.24, -128.23, -268.90, 354.24, -145.25, -268.90, 354.24, -162.27, -268.90, 354.24, -179.30, -268.90, 354.24, -196.32, -268.90, 354.24, -213.34, -268.90, 354.24, -230.36, -268.90, 354.24, -247.38, -268.90, 354.24, -264.40, -268.90, 354.24, -281.42, -268.90, 354.24, -298.44, -268.90, 354.24, -315.46, -268.90, 354.24, -332.48, -268.90, 354.24, -349.50, -268.90, 354.24, -366.52, -268.90, 354.24, -383.54, -268.90, 354.24, -400.57, -268.90, 354.24, -417.59, -268.90, 354.24, -434.61, -268.90, 354.24, -451.63, -268.90, 354.24, -468.65, -268.90, 354.24, -485.67, -268.90, 354.24, -502.89, -145.45, 374.24, 502.09, -145.45, 374.24, 485.07, -145.45, 374.24, 468.04, -145.45, 374.24, 451.02, -145.45, 374.24, 434.00, -145.45, 374.24, 416.98, -145.45, 374.24, 399.96, -145.45, 374.24, 382.94, -145.45, 374.24, 365.92, -145.45, 374.24, 348.90, -145.45, 374.24, 331.88, -145.45, 374.24, 314.86, -145.45, 374.24, 297.84, -145.45, 374.24, 280.82, -145.45, 374.24, 263.80, -145.45, 374.24, 246.77, -145.45, 374.24, 229.75, -145.45, 374.24, 212.73, -145.45, 374.24, 195.71, -145.45, 374.24, 178.69, -145.45, 374.24, 161.67, -145.45, 374.24, 144.65, -145.45, 374.24, 127.63, -145.45, 374.24, 110.61, -145.45, 374.24, 93.59, -145.45, 374.24, 76.57, -145.45, 374.24, 59.55, -145.45, 374.24, 42.53, -145.45, 374.24, 25.50, -145.45, 374.24, 8.48, -145.45, 374.24, -8.54, -145.45, 374.24, -25.56, -145.45, 374.24, -42.58, -145.45, 374.24, -59.60, -145.45, 374.24, -76.62, -145.45, 374.24, -93.64, -145.45, 374.24, -110.66, -145.45, 374.24, -127.68, -145.45, 374.24, -144.70, -145.45, 374.24, -161.72, -145.45, 374.24, -178.74, -145.45, 374.24, -195.77, -145.45, 374.24, -212.79, -145.45, 374.24, -229.81, -145.45, 374.24, -246.83, -145.45, 374.24, -263.85, -145.45, 374.24, -280.87, -145.45, 374.24, -297.89, -145.45, 374.24, -314.91, -145.45, 374.24, -331.93, -145.45, 374.24, -348.95, -145.45, 374.24, -365.97, -145.45, 374.24, -382.99, -145.45, 374.24, -400.01, -145.45, 374.24, -417.03, -145.45, 374.24, -434.06, -145.45, 374.24, -451.08, -145.45, 374.24, -468.10, -145.45, 374.24, -485.12, -145.45, 374.24, -503.14, -21.97, 393.24, 499.81, -21.97, 393.24, 482.79, -21.97, 393.24, 465.77, -21.97, 393.24, 448.75, -21.97, 393.24, 431.73, -21.97, 393.24, 414.71, -21.97, 393.24, 397.69, -21.97, 393.24, 380.67, -21.97, 393.24, 363.65, -21.97, 393.24, 346.63, -21.97, 393.24, 329.61, -21.97, 393.24, 312.59, -21.97, 393.24, 295.57, -21.97, 393.24, 278.54, -21.97, 393.24, 261.52, -21.97, 393.24, 244.50, -21.97, 393.24, 227.48, -21.97, 393.24, 210.46, -21.97, 393.24, 193.44, -21.97, 393.24, 176.42, -21.97, 393.24, 159.40, -21.97, 393.24, 142.38, -21.97, 393.24, 125.36, -21.97, 393.24, 108.34, -21.97, 393.24, 91.32, -21.97, 393.24, 74.30, -21.97, 393.24, 57.28, -21.97, 393.24, 40.25, -21.97, 393.24, 23.23, -21.97, 393.24, 6.21, -21.97, 393.24, -10.81, -21.97, 393.24, -27.83, -21.97, 393.24, -44.85, -21.97, 393.24, -61.87, -21.97, 393.24, -78.89, -21.97, 393.24, -95.91, -21.97, 393.24, -112.93, -21.97, 393.24, -129.95, -21.97, 393.24, -146.97, -21.97, 393.24, -163.99, -21.97, 393.24, -181.02, -21.97, 393.24, -198.04, -21.97, 393.24, -215.06, -21.97, 393.24, -232.08, -21.97, 393.24, -249.10, -21.97, 393.24, -266.12, -21.97, 393.24, -283.14, -21.97, 393.24, -300.16, -21.97, 393.24, -317.18, -21.97, 393.24, -334.20, -21.97, 393.24, -351.22, -21.97, 393.24, -368.24, -21.97, 393.24, -385.26, -21.97, 393.24, -402.29, -21.97, 393.24, -419.31, -21.97, 393.24, -436.33, -21.97, 393.24, -453.35, -21.97, 393.24, -470.37, -21.97, 393.24, -487.39, -21.97, 393.24, -504.41, 101.04, 412.79, 504.42, 101.04, 412.79, 487.39, 101.04, 412.79, 470.37, 101.04, 412.79, 453.35, 101.04, 412.79, 436.33, 101.04, 412.79, 419.31, 101.04, 412.79, 402.29, 101.04, 412.79, 385.27, 101.04, 412.79, 368.25, 101.04, 412.79, 351.23, 101.04, 412.79, 334.21, 101.04, 412.79, 317.19, 101.04, 412.79, 300.17, 101.04, 412.79, 283.15, 101.04, 412.79, 266.13, 101.04, 412.79, 249.10, 101.04, 412.79, 232.08, 101.04, 412.79, 215.06, 101.04, 412.79, 198.04, 101.04, 412.79, 181.02, 101.04, 412.79, 164.00, 101.04, 412.79, 146.98, 101.04, 412.79, 129.96, 101.04, 412.79, 112.94, 101.04, 412.79, 95.92, 101.04, 412.79, 78.90, 101.04, 412.79, 61.88, 101.04, 412.79, 44.86, 101.04, 412.79, 27.83, 101.04, 412.79, 10.81, 101.04, 412.79, -6.21, 101.04, 412.79, -23.23, 101.04, 412.79, -40.25, 101.04, 412.79, -57.27, 101.04, 412.79, -74.29, 101.04, 412.79, -91.31, 101.04, 412.79, -108.33, 101.04, 412.79, -125.35, 101.04, 412.79, -142.37, 101.04, 412.79, -159.39, 101.04, 412.79, -176.41, 101.04, 412.79, -193.44, 101.04, 412.79, -210.46, 101.04, 412.79, -227.48, 101.04, 412.79, -244.50, 101.04, 412.79, -261.52, 101.04, 412.79, -278.54, 101.04, 412.79, -295.56, 101.04, 412.79, -312.58, 101.04, 412.79, -329.60, 101.04, 412.79, -346.62, 101.04, 412.79, -363.64, 101.04, 412.79, -380.66, 101.04, 412.79, -397.68, 101.04, 412.79, -414.71, 101.04, 412.79, -431.73, 101.04, 412.79, -448.75, 101.04, 412.79, -465.77, 101.04, 412.79, -482.79, 101.04, 412.79, -500.51, 224.58, 432.35, 497.06, 224.58, 432.35, 480.04, 224.58, 432.35, 463.02, 224.58, 432.35, 446.00, 224.58, 432.35, 428.98, 224.58, 432.35, 411.96, 224.58, 432.35, 394.94, 224.58, 432.35, 377.92, 224.58, 432.35, 360.90, 224.58, 432.35, 343.88, 224.58, 432.35, 326.86, 224.58, 432.35, 309.84, 224.58, 432.35, 292.82, 224.58, 432.35, 275.79, 224.58, 432.35, 258.77, 224.58, 432.35, 241.75, 224.58, 432.35, 224.73, 224.58, 432.35, 207.71, 224.58, 432.35, 190.69, 224.58, 432.35, 173.67, 224.58, 432.35, 156.65, 224.58, 432.35, 139.63, 224.58, 432.35, 122.61, 224.58, 432.35, 105.59, 224.58, 432.35, 88.57, 224.58, 432.35, 71.55, 224.58, 432.35, 54.53, 224.58, 432.35, 37.50, 224.58, 432.35, 20.48, 224.58, 432.35, 3.46, 224.58, 432.35, -13.56, 224.58, 432.35, -30.58, 224.58, 432.35, -47.60, 224.58, 432.35, -64.62, 224.58, 432.35, -81.64, 224.58, 432.35, -98.66, 224.58, 432.35, -115.68, 224.58, 432.35, -132.70, 224.58, 432.35, -149.72, 224.58, 432.35, -166.74, 224.58, 432.35, -183.77, 224.58, 432.35, -200.79, 224.58, 432.35, -217.81, 224.58, 432.35, -234.83, 224.58, 432.35, -251.85, 224.58, 432.35, -268.87, 224.58, 432.35, -285.89, 224.58, 432.35, -302.91, 224.58, 432.35, -319.93, 224.58, 432.35, -336.95, 224.58, 432.35, -353.97, 224.58, 432.35, -370.99, 224.58, 432.35, -388.01, 224.58, 432.35, -405.04, 224.58, 432.35, -422.06, 224.58, 432.35, -439.08, 224.58, 432.35, -456.10, 224.58, 432.35, -473.12, 224.58, 432.35, -490.14, 224.58, 432.35, -507.16, 338.44, 463.72, 505.72, 338.44, 463.72, 488.70, 338.44, 463.72, 471.68, 338.44, 463.72, 454.66, 338.44, 463.72, 437.64, 338.44, 463.72, 420.62, 338.44, 463.72, 403.60, 338.44, 463.72, 386.58, 338.44, 463.72, 369.56, 338.44, 463.72, 352.54, 338.44, 463.72, 335.52, 338.44, 463.72, 318.50, 338.44, 463.72, 301.48, 338.44, 463.72, 284.45, 338.44, 463.72, 267.43, 338.44, 463.72, 250.41, 338.44, 463.72, 233.39, 338.44, 463.72, 216.37, 338.44, 463.72, 199.35, 338.44, 463.72, 182.33, 338.44, 463.72, 165.31, 338.44, 463.72, 148.29, 338.44, 463.72, 131.27, 338.44, 463.72, 114.25, 338.44, 463.72, 97.23, 338.44, 463.72, 80.21, 338.44, 463.72, 63.19, 338.44, 463.72, 46.16, 338.44, 463.72, 29.14, 338.44, 463.72, 12.12, 338.44, 463.72, -4.90, 338.44, 463.72, -21.92, 338.44, 463.72, -38.94, 338.44, 463.72, -55.96, 338.44, 463.72, -72.98, 338.44, 463.72, -90.00, 338.44, 463.72, -107.02, 338.44, 463.72, -124.04, 338.44, 463.72, -141.06, 338.44, 463.72, -158.08, 338.44, 463.72, -175.11, 338.44, 463.72, -192.13, 338.44, 463.72, -209.15, 338.44, 463.72, -226.17, 338.44, 463.72, -243.19, 338.44, 463.72, -260.21, 338.44, 463.72, -277.23, 338.44, 463.72, -294.25, 338.44, 463.72, -311.27, 338.44, 463.72, -328.29, 338.44, 463.72, -345.31, 338.44, 463.72, -362.33, 338.44, 463.72, -379.35, 338.44, 463.72, -396.38, 338.44, 463.72, -413.40, 338.44, 463.72, -430.42, 338.44, 463.72, -447.44, 338.44, 463.72, -464.46, 338.44, 463.72, -481.48, 338.44, 463.72, -498.50, -347.88, 451.52, 502.01, -347.88, 451.52, 484.98, -347.88, 451.52, 467.96, -347.88, 451.52, 450.94, -347.88, 451.52, 433.92, -347.88, 451.52, 416.90, -347.88, 451.52, 399.88, -347.88, 451.52, 382.86, -347.88, 451.52, 365.84, -347.88, 451.52, 348.82, -347.88, 451.52, 331.80, -347.88, 451.52, 314.78, -347.88, 451.52, 297.76, -347.88, 451.52, 280.74, -347.88, 451.52, 263.71, -347.88, 451.52, 246.69, -347.88, 451.52, 229.67, -347.88, 451.52, 212.65, -347.88, 451.52, 195.63, -347.88, 451.52, 178.61, -347.88, 451.52, 161.59, -347.88, 451.52, 144.57, -347.88, 451.52, 127.55, -347.88, 451.52, 110.53, -347.88, 451.52, 93.51, -347.88, 451.52, 76.49, -347.88, 451.52, 59.47, -347.88, 451.52, 42.44, -347.88, 451.52, 25.42, -347.88, 451.52, 8.40, -347.88, 451.52, -8.62, -347.88, 451.52, -25.64, -347.88, 451.52, -42.66, -347.88, 451.52, -59.68, -347.88, 451.52, -76.70, -347.88, 451.52, -93.72, -347.88, 451.52, -110.74, -347.88, 451.52, -127.76, -347.88, 451.52, -144.78, -347.88, 451.52, -161.80, -347.88, 451.52, -178.83, -347.88, 451.52, -195.85, -347.88, 451.52, -212.87, -347.88, 451.52, -229.89, -347.88, 451.52, -246.91, -347.88, 451.52, -263.93, -347.88, 451.52, -280.95, -347.88, 451.52, -297.97, -347.88, 451.52, -314.99, -347.88, 451.52, -332.01, -347.88, 451.52, -349.03, -347.88, 451.52, -366.05, -347.88, 451.52, -383.07, -347.88, 451.52, -400.09, -347.88, 451.52, -417.12, -347.88, 451.52, -434.14, -347.88, 451.52, -451.16, -347.88, 451.52, -468.18, -347.88, 451.52, -485.20, -347.88, 451.52, -502.62, -224.09, 470.86, 502.42, -224.09, 470.86, 485.40, -224.09, 470.86, 468.38, -224.09, 470.86, 451.36, -224.09, 470.86, 434.34, -224.09, 470.86, 417.32, -224.09, 470.86, 400.30, -224.09, 470.86, 383.28, -224.09, 470.86, 366.26, -224.09, 470.86, 349.24, -224.09, 470.86, 332.22, -224.09, 470.86, 315.20, -224.09, 470.86, 298.18, -224.09, 470.86, 281.15, -224.09, 470.86, 264.13, -224.09, 470.86, 247.11, -224.09, 470.86, 230.09, -224.09, 470.86, 213.07, -224.09, 470.86, 196.05, -224.09, 470.86, 179.03, -224.09, 470.86, 162.01, -224.09, 470.86, 144.99, -224.09, 470.86, 127.97, -224.09, 470.86, 110.95, -224.09, 470.86, 93.93, -224.09, 470.86, 76.91, -224.09, 470.86, 59.89, -224.09, 470.86, 42.86, -224.09, 470.86, 25.84, -224.09, 470.86, 8.82, -224.09, 470.86, -8.20, -224.09, 470.86, -25.22, -224.09, 470.86, -42.24, -224.09, 470.86, -59.26, -224.09, 470.86, -76.28, -224.09, 470.86, -93.30, -224.09, 470.86, -110.32, -224.09, 470.86, -127.34, -224.09, 470.86, -144.36, -224.09, 470.86, -161.38, -224.09, 470.86, -178.41, -224.09, 470.86, -195.43, -224.09, 470.86, -212.45, -224.09, 470.86, -229.47, -224.09, 470.86, -246.49, -224.09, 470.86, -263.51, -224.09, 470.86, -280.53, -224.09, 470.86, -297.55, -224.09, 470.86, -314.57, -224.09, 470.86, -331.59, -224.09, 470.86, -348.61, -224.09, 470.86, -365.63, -224.09, 470.86, -382.65, -224.09, 470.86, -399.68, -224.09, 470.86, -416.70, -224.09, 470.86, -433.72, -224.09, 470.86, -450.74, -224.09, 470.86, -467.76, -224.09, 470.86, -484.78, -224.09, 470.86, -501.80, -101.06, 490.22, 501.49, -101.06, 490.22, 484.46, -101.06, 490.22, 467.44, -101.06, 490.22, 450.42, -101.06, 490.22, 433.40, -101.06, 490.22, 416.38, -101.06, 490.22, 399.36, -101.06, 490.22, 382.34, -101.06, 490.22, 365.32, -101.06, 490.22, 348.30, -101.06, 490.22, 331.28, -101.06, 490.22, 314.26, -101.06, 490.22, 297.24, -101.06, 490.22, 280.22, -101.06, 490.22, 263.19, -101.06, 490.22, 246.17, -101.06, 490.22, 229.15, -101.06, 490.22, 212.13, -101.06, 490.22, 195.11, -101.06, 490.22, 178.09, -101.06, 490.22, 161.07, -101.06, 490.22, 144.05, -101.06, 490.22, 127.03, -101.06, 490.22, 110.01, -101.06, 490.22, 92.99, -101.06, 490.22, 75.97, -101.06, 490.22, 58.95, -101.06, 490.22, 41.92, -101.06, 490.22, 24.90, -101.06, 490.22, 7.88, -101.06, 490.22, -9.14, -101.06, 490.22, -26.16, -101.06, 490.22, -43.18, -101.06, 490.22, -60.20, -101.06, 490.22, -77.22, -101.06, 490.22, -94.24, -101.06, 490.22, -111.26, -101.06, 490.22, -128.28, -101.06, 490.22, -145.30, -101.06, 490.22, -162.32, -101.06, 490.22, -179.34, -101.06, 490.22, -196.37, -101.06, 490.22, -213.39, -101.06, 490.22, -230.41, -101.06, 490.22, -247.43, -101.06, 490.22, -264.45, -101.06, 490.22, -281.47, -101.06, 490.22, -298.49, -101.06, 490.22, -315.51, -101.06, 490.22, -332.53, -101.06, 490.22, -349.55, -101.06, 490.22, -366.57, -101.06, 490.22, -383.59, -101.06, 490.22, -400.61, -101.06, 490.22, -417.64, -101.06, 490.22, -434.66, -101.06, 490.22, -451.68, -101.06, 490.22, -468.70, -101.06, 490.22, -485.72, -101.06, 490.22, -503.24, 22.11, 509.50, 504.66, 22.11, 509.50, 487.64, 22.11, 509.50, 470.62, 22.11, 509.50, 453.60, 22.11, 509.50, 436.58, 22.11, 509.50, 419.56, 22.11, 509.50, 402.54, 22.11, 509.50, 385.52, 22.11, 509.50, 368.50, 22.11, 509.50, 351.48, 22.11, 509.50, 334.46, 22.11, 509.50, 317.44, 22.11, 509.50, 300.42, 22.11, 509.50, 283.39, 22.11, 509.50, 266.37, 22.11, 509.50, 249.35, 22.11, 509.50, 232.33, 22.11, 509.50, 215.31, 22.11, 509.50, 198.29, 22.11, 509.50, 181.27, 22.11, 509.50, 164.25, 22.11, 509.50, 147.23, 22.11, 509.50, 130.21, 22.11, 509.50, 113.19, 22.11, 509.50, 96.17, 22.11, 509.50, 79.15, 22.11, 509.50, 62.13, 22.11, 509.50, 45.10, 22.11, 509.50, 28.08, 22.11, 509.50, 11.06, 22.11, 509.50, -5.96, 22.11, 509.50, -22.98, 22.11, 509.50, -40.00, 22.11, 509.50, -57.02, 22.11, 509.50, -74.04, 22.11, 509.50, -91.06, 22.11, 509.50, -108.08, 22.11, 509.50, -125.10, 22.11, 509.50, -142.12, 22.11, 509.50, -159.14, 22.11, 509.50, -176.17, 22.11, 509.50, -193.19, 22.11, 509.50, -210.21, 22.11, 509.50, -227.23, 22.11, 509.50, -244.25, 22.11, 509.50, -261.27, 22.11, 509.50, -278.29, 22.11, 509.50, -295.31, 22.11, 509.50, -312.33, 22.11, 509.50, -329.35, 22.11, 509.50, -346.37, 22.11, 509.50, -363.39, 22.11, 509.50, -380.41, 22.11, 509.50, -397.44, 22.11, 509.50, -414.46, 22.11, 509.50, -431.48, 22.11, 509.50, -448.50, 22.11, 509.50, -465.52, 22.11, 509.50, -482.54, 22.11, 509.50, -499.56, 31.25, -72.93, 188.29, 31.25, -72.93, 178.28, 31.25, -72.93, 168.27, 31.25, -72.93, 158.26, 31.25, -72.93, 148.24, 31.25, -72.93, 138.23, 31.25, -72.93, 128.22, 31.25, -72.93, 118.21, 31.25, -72.93, 108.20, 31.25, -72.93, 98.18, 31.25, -72.93, -159.13, 31.25, -72.93, -166.14, 31.25, -72.93, -173.15, 31.25, -72.93, -180.16, 31.25, -72.93, -187.16, 31.25, -72.93, -194.17, 31.25, -72.93, -201.18, 31.25, -72.93, -208.19, 31.25, -72.93, -215.20, 31.25, -72.93, -222.21, 31.25, -72.93, -229.22, 31.25, -72.93, -236.22, 31.25, -72.93, -243.23, 31.25, -72.93, -250.24, 31.25, -72.93, -257.25, 31.25, -72.93, -264.26, 31.25, -72.93, -271.27, 31.25, -72.93, -278.28, 31.25, -72.93, -285.28, 31.25, -72.93, -292.29, 31.25, -72.93, -299.30, 31.25, -72.93, -306.31, 31.25, -72.93, -313.32, 31.25, -72.93, -320.33, 31.25, -72.93, -327.34, 31.25, -72.93, -334.34, 31.25, -72.93, -341.35, 31.25, -72.93, -348.36, 31.25, -72.93, -355.37, 31.25, -72.93, -362.38, 31.25, -72.93, -369.39, 31.25, -72.93, -376.40, 31.25, -72.93, -383.40, 31.25, -72.93, -390.41, 31.25, -72.93, -397.42, 31.25, -72.93, -404.43, 31.25, -72.93, -411.44, 31.25, -72.93, -418.45, 31.25, -72.93, -425.45, 31.25, -72.93, -432.46, 31.25, -72.93, -439.47, 31.25, -72.93, -446.48, 31.25, -72.93, -453.49, 31.25, -72.93, -460.50, 31.25, -72.93, -467.51, 31.25, -72.93, -474.51, 31.25, -72.93, -481.52, 31.25, -72.93, -488.53, 31.25, -72.93, -495.54, 31.25, -72.93, -503.42, 72.37, -66.60, 187.59, 72.37, -66.60, 177.58, 72.37, -66.60, 167.57, 72.37, -66.60, 157.56, 72.37, -66.60, 147.54, 72.37, -66.60, 137.53, 72.37, -66.60, 127.52, 72.37, -66.60, 117.51, 72.37, -66.60, 107.50, 72.37, -66.60, 97.48, 72.37, -66.60, -159.83, 72.37, -66.60, -166.84, 72.37, -66.60, -173.85, 72.37, -66.60, -180.86, 72.37, -66.60, -187.86, 72.37, -66.60, -194.87, 72.37, -66.60, -201.88, 72.37, -66.60, -208.89, 72.37, -66.60, -215.90, 72.37, -66.60, -222.91, 72.37, -66.60, -229.92, 72.37, -66.60, -236.92, 72.37, -66.60, -243.93, 72.37, -66.60, -250.94, 72.37, -66.60, -257.95, 72.37, -66.60, -264.96, 72.37, -66.60, -271.97, 72.37, -66.60, -278.98, 72.37, -66.60, -285.98, 72.37, -66.60, -292.99, 72.37, -66.60, -300.00, 72.37, -66.60, -307.01, 72.37, -66.60, -314.02, 72.37, -66.60, -321.03, 72.37, -66.60, -328.04, 72.37, -66.60, -335.04, 72.37, -66.60, -342.05, 72.37, -66.60, -349.06, 72.37, -66.60, -356.07, 72.37, -66.60, -363.08, 72.37, -66.60, -370.09, 72.37, -66.60, -377.10, 72.37, -66.60, -384.10, 72.37, -66.60, -391.11, 72.37, -66.60, -398.12, 72.37, -66.60, -405.13, 72.37, -66.60, -412.14, 72.37, -66.60, -419.15, 72.37, -66.60, -426.16, 72.37, -66.60, -433.16, 72.37, -66.60, -440.17, 72.37, -66.60, -447.18, 72.37, -66.60, -454.19, 72.37, -66.60, -461.20, 72.37, -66.60, -468.21, 72.37, -66.60, -475.22, 72.37, -66.60, -482.22, 72.37, -66.60, -489.23, 72.37, -66.60, -496.24, 72.37, -66.60, -503.63, 41.60, 35.49, 189.52, 41.60, 35.49, 179.51, 41.60, 35.49, 169.50, 41.60, 35.49, 159.49, 41.60, 35.49, 149.47, 41.60, 35.49, 139.46, 41.60, 35.49, 129.45, 41.60, 35.49, 119.44, 41.60, 35.49, 109.43, 41.60, 35.49, 99.41, 41.60, 35.49, -157.90, 41.60, 35.49, -164.91, 41.60, 35.49, -171.92, 41.60, 35.49, -178.93, 41.60, 35.49, -185.93, 41.60, 35.49, -192.94, 41.60, 35.49, -199.95, 41.60, 35.49, -206.96, 41.60, 35.49, -213.97, 41.60, 35.49, -220.98, 41.60, 35.49, -227.99, 41.60, 35.49, -234.99, 41.60, 35.49, -242.00, 41.60, 35.49, -249.01, 41.60, 35.49, -256.02, 41.60, 35.49, -263.03, 41.60, 35.49, -270.04, 41.60, 35.49, -277.05, 41.60, 35.49, -284.05, 41.60, 35.49, -291.06, 41.60, 35.49, -298.07, 41.60, 35.49, -305.08, 41.60, 35.49, -312.09, 41.60, 35.49, -319.10, 41.60, 35.49, -326.11, 41.60, 35.49, -333.11, 41.60, 35.49, -340.12, 41.60, 35.49, -347.13, 41.60, 35.49, -354.14, 41.60, 35.49, -361.15, 41.60, 35.49, -368.16, 41.60, 35.49, -375.17, 41.60, 35.49, -382.17, 41.60, 35.49, -389.18, 41.60, 35.49, -396.19, 41.60, 35.49, -403.20, 41.60, 35.49, -410.21, 41.60, 35.49, -417.22, 41.60, 35.49, -424.23, 41.60, 35.49, -431.23, 41.60, 35.49, -438.24, 41.60, 35.49, -445.25, 41.60, 35.49, -452.26, 41.60, 35.49, -459.27, 41.60, 35.49, -466.28, 41.60, 35.49, -473.29, 41.60, 35.49, -480.29, 41.60, 35.49, -487.30, 41.60, 35.49, -494.31, 41.60, 35.49, -501.61, 106.94, 27.09, 186.66, 106.94, 27.09, 176.65, 106.94, 27.09, 166.64, 106.94, 27.09, 156.63, 106.94, 27.09, 146.61, 106.94, 27.09, 136.60, 106.94, 27.09, 126.59, 106.94, 27.09, 116.58, 106.94, 27.09, 106.56, 106.94, 27.09, 96.55, 106.94, 27.09, -160.76, 106.94, 27.09, -167.77, 106.94, 27.09, -174.78, 106.94, 27.09, -181.79, 106.94, 27.09, -188.80, 106.94, 27.09, -195.80, 106.94, 27.09, -202.81, 106.94, 27.09, -209.82, 106.94, 27.09, -216.83, 106.94, 27.09, -223.84, 106.94, 27.09, -230.85, 106.94, 27.09, -237.86, 106.94, 27.09, -244.86, 106.94, 27.09, -251.87, 106.94, 27.09, -258.88, 106.94, 27.09, -265.89, 106.94, 27.09, -272.90, 106.94, 27.09, -279.91, 106.94, 27.09, -286.92, 106.94, 27.09, -293.92, 106.94, 27.09, -300.93, 106.94, 27.09, -307.94, 106.94, 27.09, -314.95, 106.94, 27.09, -321.96, 106.94, 27.09, -328.97, 106.94, 27.09, -335.98, 106.94, 27.09, -342.98, 106.94, 27.09, -349.99, 106.94, 27.09, -357.00, 106.94, 27.09, -364.01, 106.94, 27.09, -371.02, 106.94, 27.09, -378.03, 106.94, 27.09, -385.04, 106.94, 27.09, -392.04, 106.94, 27.09, -399.05, 106.94, 27.09, -406.06, 106.94, 27.09, -413.07, 106.94, 27.09, -420.08, 106.94, 27.09, -427.09, 106.94, 27.09, -434.10, 106.94, 27.09, -441.10, 106.94, 27.09, -448.11, 106.94, 27.09, -455.12, 106.94, 27.09, -462.13, 106.94, 27.09, -469.14, 106.94, 27.09, -476.15, 106.94, 27.09, -483.16, 106.94, 27.09, -490.16, 106.94, 27.09, -497.17, 106.94, 27.09, -503.62, 113.19, -60.47, 186.32, 113.19, -60.47, 176.31, 113.19, -60.47, 166.30, 113.19, -60.47, 156.29, 113.19, -60.47, 146.27, 113.19, -60.47, 136.26, 113.19, -60.47, 126.25, 113.19, -60.47, 116.24, 113.19, -60.47, 106.23, 113.19, -60.47, 96.21, 113.19, -60.47, -161.10, 113.19, -60.47, -168.11, 113.19, -60.47, -175.12, 113.19, -60.47, -182.13, 113.19, -60.47, -189.13, 113.19, -60.47, -196.14, 113.19, -60.47, -203.15, 113.19, -60.47, -210.16, 113.19, -60.47, -217.17, 113.19, -60.47, -224.18, 113.19, -60.47, -231.19, 113.19, -60.47, -238.19, 113.19, -60.47, -245.20, 113.19, -60.47, -252.21, 113.19, -60.47, -259.22, 113.19, -60.47, -266.23, 113.19, -60.47, -273.24, 113.19, -60.47, -280.25, 113.19, -60.47, -287.25, 113.19, -60.47, -294.26, 113.19, -60.47, -301.27, 113.19, -60.47, -308.28, 113.19, -60.47, -315.29, 113.19, -60.47, -322.30, 113.19, -60.47, -329.31, 113.19, -60.47, -336.31, 113.19, -60.47, -343.32, 113.19, -60.47, -350.33, 113.19, -60.47, -357.34, 113.19, -60.47, -364.35, 113.19, -60.47, -371.36, 113.19, -60.47, -378.37, 113.19, -60.47, -385.37, 113.19, -60.47, -392.38, 113.19, -60.47, -399.39, 113.19, -60.47, -406.40, 113.19, -60.47, -413.41, 113.19, -60.47, -420.42, 113.19, -60.47, -427.42, 113.19, -60.47, -434.43, 113.19, -60.47, -441.44, 113.19, -60.47, -448.45, 113.19, -60.47, -455.46, 113.19, -60.47, -462.47, 113.19, -60.47, -469.48, 113.19, -60.47, -476.48, 113.19, -60.47, -483.49, 113.19, -60.47, -490.50, 113.19, -60.47, -497.28, 113.19, -60.47, -505.41, 57.20, -105.52, 186.02, 57.20, -105.52, 176.01, 57.20, -105.52, 166.00, 57.20, -105.52, 155.99, 57.20, -105.52, 145.97, 57.20, -105.52, 135.96, 57.20, -105.52, 125.95, 57.20, -105.52, 115.94, 57.20, -105.52, 105.92, 57.20, -105.52, 95.91, 57.20, -105.52, -161.40, 57.20, -105.52, -168.41, 57.20, -105.52, -175.42, 57.20, -105.52, -182.43, 57.20, -105.52, -189.44, 57.20, -105.52, -196.44, 57.20, -105.52, -203.45, 57.20, -105.52, -210.46, 57.20, -105.52, -217.47, 57.20, -105.52, -224.48, 57.20, -105.52, -231.49, 57.20, -105.52, -238.50, 57.20, -105.52, -245.50, 57.20, -105.52, -252.51, 57.20, -105.52, -259.52, 57.20, -105.52, -266.53, 57.20, -105.52, -273.54, 57.20, -105.52, -280.55, 57.20, -105.52, -287.56, 57.20, -105.52, -294.56, 57.20, -105.52, -301.57, 57.20, -105.52, -308.58, 57.20, -105.52, -315.59, 57.20, -105.52, -322.60, 57.20, -105.52, -329.61, 57.20, -105.52, -336.62, 57.20, -105.52, -343.62, 57.20, -105.52, -350.63, 57.20, -105.52, -357.64, 57.20, -105.52, -364.65, 57.20, -105.52, -371.66, 57.20, -105.52, -378.67, 57.20, -105.52, -385.68, 57.20, -105.52, -392.68, 57.20, -105.52, -399.69, 57.20, -105.52, -406.70, 57.20, -105.52, -413.71, 57.20, -105.52, -420.72, 57.20, -105.52, -427.73, 57.20, -105.52, -434.74, 57.20, -105.52, -441.74, 57.20, -105.52, -448.75, 57.20, -105.52, -455.76, 57.20, -105.52, -462.77, 57.20, -105.52, -469.78, 57.20, -105.52, -476.79, 57.20, -105.52, -483.79, 57.20, -105.52, -490.80, 57.20, -105.52, -497.81, 57.20, -105.52, -504.30, -9.68, -79.50, 191.01, -9.68, -79.50, 181.00, -9.68, -79.50, 170.99, -9.68, -79.50, 160.98, -9.68, -79.50, 150.96, -9.68, -79.50, 140.95, -9.68, -79.50, 130.94, -9.68, -79.50, 120.93, -9.68, -79.50, 110.91, -9.68, -79.50, 100.90, -9.68, -79.50, -156.41, -9.68, -79.50, -163.42, -9.68, -79.50, -170.43, -9.68, -79.50, -177.44, -9.68, -79.50, -184.45, -9.68, -79.50, -191.45, -9.68, -79.50, -198.46, -9.68, -79.50, -205.47, -9.68, -79.50, -212.48, -9.68, -79.50, -219.49, -9.68, -79.50, -226.50, -9.68, -79.50, -233.51, -9.68, -79.50, -240.51, -9.68, -79.50, -247.52, -9.68, -79.50, -254.53, -9.68, -79.50, -261.54, -9.68, -79.50, -268.55, -9.68, -79.50, -275.56, -9.68, -79.50, -282.57, -9.68, -79.50, -289.57, -9.68, -79.50, -296.58, -9.68, -79.50, -303.59, -9.68, -79.50, -310.60, -9.68, -79.50, -317.61, -9.68, -79.50, -324.62, -9.68, -79.50, -331.63, -9.68, -79.50, -338.63, -9.68, -79.50, -345.64, -9.68, -79.50, -352.65, -9.68, -79.50, -359.66, -9.68, -79.50, -366.67, -9.68, -79.50, -373.68, -9.68, -79.50, -380.69, -9.68, -79.50, -387.69, -9.68, -79.50, -394.70, -9.68, -79.50, -401.71, -9.68, -79.50, -408.72, -9.68, -79.50, -415.73, -9.68, -79.50, -422.74, -9.68, -79.50, -429.75, -9.68, -79.50, -436.75, -9.68, -79.50, -443.76, -9.68, -79.50, -450.77, -9.68, -79.50, -457.78, -9.68, -79.50, -464.79, -9.68, -79.50, -471.80, -9.68, -79.50, -478.81, -9.68, -79.50, -485.81, -9.68, -79.50, -492.82, -9.68, -79.50, -499.28, -10.97, 6.72, 190.42, -10.97, 6.72, 180.41, -10.97, 6.72, 170.40, -10.97, 6.72, 160.39, -10.97, 6.72, 150.37, -10.97, 6.72, 140.36, -10.97, 6.72, 130.35, -10.97, 6.72, 120.34, -10.97, 6.72, 110.33, -10.97, 6.72, 100.31, -10.97, 6.72, -157.00, -10.97, 6.72, -164.01, -10.97, 6.72, -171.02, -10.97, 6.72, -178.03, -10.97, 6.72, -185.03, -10.97, 6.72, -192.04, -10.97, 6.72, -199.05, -10.97, 6.72, -206.06, -10.97, 6.72, -213.07, -10.97, 6.72, -220.08, -10.97, 6.72, -227.09, -10.97, 6.72, -234.09, -10.97, 6.72, -241.10, -10.97, 6.72, -248.11, -10.97, 6.72, -255.12, -10.97, 6.72, -262.13, -10.97, 6.72, -269.14, -10.97, 6.72, -276.15, -10.97, 6.72, -283.15, -10.97, 6.72, -290.16, -10.97, 6.72, -297.17, -10.97, 6.72, -304.18, -10.97, 6.72, -311.19, -10.97, 6.72, -318.20, -10.97, 6.72, -325.21, -10.97, 6.72, -332.21, -10.97, 6.72, -339.22, -10.97, 6.72, -346.23, -10.97, 6.72, -353.24, -10.97, 6.72, -360.25, -10.97, 6.72, -367.26, -10.97, 6.72, -374.27, -10.97, 6.72, -381.27, -10.97, 6.72, -388.28, -10.97, 6.72, -395.29, -10.97, 6.72, -402.30, -10.97, 6.72, -409.31, -10.97, 6.72, -416.32, -10.97, 6.72, -423.33, -10.97, 6.72, -430.33, -10.97, 6.72, -437.34, -10.97, 6.72, -444.35, -10.97, 6.72, -451.36, -10.97, 6.72, -458.37, -10.97, 6.72, -465.38, -10.97, 6.72, -472.39, -10.97, 6.72, -479.39, -10.97, 6.72, -486.40, -10.97, 6.72, -493.41, -10.97, 6.72, -500.73]

# DOM coordinates: shape [86, 60, 3]
x_coords = np.reshape(x_coords_flat, [86, 60, 3])
x_coords_rounded = np.round(x_coords)

dom_coord_dict = {}
for s in range(86):
    for om in range(60):
        dom_coord_dict[tuple(x_coords_rounded[s, om])] = (s, om)

# flattened IC79 coordinates: shape [10*10*60*3]
X_IC79_coords_flat = [
        0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -256.14, -521.08, 496.03, -256.14, -521.08, 479.01, -256.14, -521.08, 461.99, -256.14, -521.08, 444.97, -256.14, -521.08, 427.95, -256.14, -521.08, 410.93, -256.14, -521.08, 393.91, -256.14, -521.08, 376.88, -256.14, -521.08, 359.86, -256.14, -521.08, 342.84, -256.14, -521.08, 325.82, -256.14, -521.08, 308.8, -256.14, -521.08, 291.78, -256.14, -521.08, 274.76, -256.14, -521.08, 257.74, -256.14, -521.08, 240.72, -256.14, -521.08, 223.7, -256.14, -521.08, 206.68, -256.14, -521.08, 189.66, -256.14, -521.08, 172.64, -256.14, -521.08, 155.62, -256.14, -521.08, 138.59, -256.14, -521.08, 121.57, -256.14, -521.08, 104.55, -256.14, -521.08, 87.53, -256.14, -521.08, 70.51, -256.14, -521.08, 53.49, -256.14, -521.08, 36.47, -256.14, -521.08, 19.45, -256.14, -521.08, 2.43, -256.14, -521.08, -14.59, -256.14, -521.08, -31.61, -256.14, -521.08, -48.63, -256.14, -521.08, -65.65, -256.14, -521.08, -82.68, -256.14, -521.08, -99.7, -256.14, -521.08, -116.72, -256.14, -521.08, -133.74, -256.14, -521.08, -150.76, -256.14, -521.08, -167.78, -256.14, -521.08, -184.8, -256.14, -521.08, -201.82, -256.14, -521.08, -218.84, -256.14, -521.08, -235.86, -256.14, -521.08, -252.88, -256.14, -521.08, -269.9, -256.14, -521.08, -286.92, -256.14, -521.08, -303.95, -256.14, -521.08, -320.97, -256.14, -521.08, -337.99, -256.14, -521.08, -355.01, -256.14, -521.08, -372.03, -256.14, -521.08, -389.05, -256.14, -521.08, -406.07, -256.14, -521.08, -423.09, -256.14, -521.08, -440.11, -256.14, -521.08, -457.13, -256.14, -521.08, -474.15, -256.14, -521.08, -491.17, -256.14, -521.08, -504.4, -132.8, -501.45, 500.07, -132.8, -501.45, 483.05, -132.8, -501.45, 466.03, -132.8, -501.45, 449.01, -132.8, -501.45, 431.99, -132.8, -501.45, 414.97, -132.8, -501.45, 397.95, -132.8, -501.45, 380.93, -132.8, -501.45, 363.91, -132.8, -501.45, 346.89, -132.8, -501.45, 329.87, -132.8, -501.45, 312.85, -132.8, -501.45, 295.83, -132.8, -501.45, 278.8, -132.8, -501.45, 261.78, -132.8, -501.45, 244.76, -132.8, -501.45, 227.74, -132.8, -501.45, 210.72, -132.8, -501.45, 193.7, -132.8, -501.45, 176.68, -132.8, -501.45, 159.66, -132.8, -501.45, 142.64, -132.8, -501.45, 125.62, -132.8, -501.45, 108.6, -132.8, -501.45, 91.58, -132.8, -501.45, 74.56, -132.8, -501.45, 57.54, -132.8, -501.45, 40.51, -132.8, -501.45, 23.49, -132.8, -501.45, 6.47, -132.8, -501.45, -10.55, -132.8, -501.45, -27.57, -132.8, -501.45, -44.59, -132.8, -501.45, -61.61, -132.8, -501.45, -78.63, -132.8, -501.45, -95.65, -132.8, -501.45, -112.67, -132.8, -501.45, -129.69, -132.8, -501.45, -146.71, -132.8, -501.45, -163.73, -132.8, -501.45, -180.76, -132.8, -501.45, -197.78, -132.8, -501.45, -214.8, -132.8, -501.45, -231.82, -132.8, -501.45, -248.84, -132.8, -501.45, -265.86, -132.8, -501.45, -282.88, -132.8, -501.45, -299.9, -132.8, -501.45, -316.92, -132.8, -501.45, -333.94, -132.8, -501.45, -350.96, -132.8, -501.45, -367.98, -132.8, -501.45, -385.0, -132.8, -501.45, -402.03, -132.8, -501.45, -419.05, -132.8, -501.45, -436.07, -132.8, -501.45, -453.09, -132.8, -501.45, -470.11, -132.8, -501.45, -487.13, -132.8, -501.45, -504.15, -9.13, -481.74, 499.23, -9.13, -481.74, 482.21, -9.13, -481.74, 465.19, -9.13, -481.74, 448.17, -9.13, -481.74, 431.15, -9.13, -481.74, 414.13, -9.13, -481.74, 397.11, -9.13, -481.74, 380.09, -9.13, -481.74, 363.07, -9.13, -481.74, 346.05, -9.13, -481.74, 329.03, -9.13, -481.74, 312.01, -9.13, -481.74, 294.99, -9.13, -481.74, 277.96, -9.13, -481.74, 260.94, -9.13, -481.74, 243.92, -9.13, -481.74, 226.9, -9.13, -481.74, 209.88, -9.13, -481.74, 192.86, -9.13, -481.74, 175.84, -9.13, -481.74, 158.82, -9.13, -481.74, 141.8, -9.13, -481.74, 124.78, -9.13, -481.74, 107.76, -9.13, -481.74, 90.74, -9.13, -481.74, 73.72, -9.13, -481.74, 56.7, -9.13, -481.74, 39.67, -9.13, -481.74, 22.65, -9.13, -481.74, 5.63, -9.13, -481.74, -11.39, -9.13, -481.74, -28.41, -9.13, -481.74, -45.43, -9.13, -481.74, -62.45, -9.13, -481.74, -79.47, -9.13, -481.74, -96.49, -9.13, -481.74, -113.51, -9.13, -481.74, -130.53, -9.13, -481.74, -147.55, -9.13, -481.74, -164.57, -9.13, -481.74, -181.6, -9.13, -481.74, -198.62, -9.13, -481.74, -215.64, -9.13, -481.74, -232.66, -9.13, -481.74, -249.68, -9.13, -481.74, -266.7, -9.13, -481.74, -283.72, -9.13, -481.74, -300.74, -9.13, -481.74, -317.76, -9.13, -481.74, -334.78, -9.13, -481.74, -351.8, -9.13, -481.74, -368.82, -9.13, -481.74, -385.84, -9.13, -481.74, -402.87, -9.13, -481.74, -419.89, -9.13, -481.74, -436.91, -9.13, -481.74, -453.93, -9.13, -481.74, -470.95, -9.13, -481.74, -487.97, -9.13, -481.74, -504.99, 114.39, -461.99, 498.66, 114.39, -461.99, 481.64, 114.39, -461.99, 464.62, 114.39, -461.99, 447.6, 114.39, -461.99, 430.58, 114.39, -461.99, 413.56, 114.39, -461.99, 396.54, 114.39, -461.99, 379.52, 114.39, -461.99, 362.5, 114.39, -461.99, 345.48, 114.39, -461.99, 328.46, 114.39, -461.99, 311.44, 114.39, -461.99, 294.42, 114.39, -461.99, 277.39, 114.39, -461.99, 260.37, 114.39, -461.99, 243.35, 114.39, -461.99, 226.33, 114.39, -461.99, 209.31, 114.39, -461.99, 192.29, 114.39, -461.99, 175.27, 114.39, -461.99, 158.25, 114.39, -461.99, 141.23, 114.39, -461.99, 124.21, 114.39, -461.99, 107.19, 114.39, -461.99, 90.17, 114.39, -461.99, 73.15, 114.39, -461.99, 56.13, 114.39, -461.99, 39.1, 114.39, -461.99, 22.08, 114.39, -461.99, 5.06, 114.39, -461.99, -11.96, 114.39, -461.99, -28.98, 114.39, -461.99, -46.0, 114.39, -461.99, -63.02, 114.39, -461.99, -80.04, 114.39, -461.99, -97.06, 114.39, -461.99, -114.08, 114.39, -461.99, -131.1, 114.39, -461.99, -148.12, 114.39, -461.99, -165.14, 114.39, -461.99, -182.17, 114.39, -461.99, -199.19, 114.39, -461.99, -216.21, 114.39, -461.99, -233.23, 114.39, -461.99, -250.25, 114.39, -461.99, -267.27, 114.39, -461.99, -284.29, 114.39, -461.99, -301.31, 114.39, -461.99, -318.33, 114.39, -461.99, -335.35, 114.39, -461.99, -352.37, 114.39, -461.99, -369.39, 114.39, -461.99, -386.41, 114.39, -461.99, -403.44, 114.39, -461.99, -420.46, 114.39, -461.99, -437.48, 114.39, -461.99, -454.5, 114.39, -461.99, -471.52, 114.39, -461.99, -488.54, 114.39, -461.99, -505.56, 237.78, -442.42, 501.46, 237.78, -442.42, 484.44, 237.78, -442.42, 467.42, 237.78, -442.42, 450.4, 237.78, -442.42, 433.38, 237.78, -442.42, 416.36, 237.78, -442.42, 399.34, 237.78, -442.42, 382.32, 237.78, -442.42, 365.3, 237.78, -442.42, 348.28, 237.78, -442.42, 331.26, 237.78, -442.42, 314.24, 237.78, -442.42, 297.22, 237.78, -442.42, 280.19, 237.78, -442.42, 263.17, 237.78, -442.42, 246.15, 237.78, -442.42, 229.13, 237.78, -442.42, 212.11, 237.78, -442.42, 195.09, 237.78, -442.42, 178.07, 237.78, -442.42, 161.05, 237.78, -442.42, 144.03, 237.78, -442.42, 127.01, 237.78, -442.42, 109.99, 237.78, -442.42, 92.97, 237.78, -442.42, 75.95, 237.78, -442.42, 58.93, 237.78, -442.42, 41.9, 237.78, -442.42, 24.88, 237.78, -442.42, 7.86, 237.78, -442.42, -9.16, 237.78, -442.42, -26.18, 237.78, -442.42, -43.2, 237.78, -442.42, -60.22, 237.78, -442.42, -77.24, 237.78, -442.42, -94.26, 237.78, -442.42, -111.28, 237.78, -442.42, -128.3, 237.78, -442.42, -145.32, 237.78, -442.42, -162.34, 237.78, -442.42, -179.37, 237.78, -442.42, -196.39, 237.78, -442.42, -213.41, 237.78, -442.42, -230.43, 237.78, -442.42, -247.45, 237.78, -442.42, -264.47, 237.78, -442.42, -281.49, 237.78, -442.42, -298.51, 237.78, -442.42, -315.53, 237.78, -442.42, -332.55, 237.78, -442.42, -349.57, 237.78, -442.42, -366.59, 237.78, -442.42, -383.61, 237.78, -442.42, -400.64, 237.78, -442.42, -417.66, 237.78, -442.42, -434.68, 237.78, -442.42, -451.7, 237.78, -442.42, -468.72, 237.78, -442.42, -485.74, 237.78, -442.42, -502.76, 361.0, -422.83, 499.51, 361.0, -422.83, 482.49, 361.0, -422.83, 465.47, 361.0, -422.83, 448.45, 361.0, -422.83, 431.43, 361.0, -422.83, 414.41, 361.0, -422.83, 397.39, 361.0, -422.83, 380.37, 361.0, -422.83, 363.35, 361.0, -422.83, 346.33, 361.0, -422.83, 329.31, 361.0, -422.83, 312.29, 361.0, -422.83, 295.27, 361.0, -422.83, 278.24, 361.0, -422.83, 261.22, 361.0, -422.83, 244.2, 361.0, -422.83, 227.18, 361.0, -422.83, 210.16, 361.0, -422.83, 193.14, 361.0, -422.83, 176.12, 361.0, -422.83, 159.1, 361.0, -422.83, 142.08, 361.0, -422.83, 125.06, 361.0, -422.83, 108.04, 361.0, -422.83, 91.02, 361.0, -422.83, 74.0, 361.0, -422.83, 56.98, 361.0, -422.83, 39.95, 361.0, -422.83, 22.93, 361.0, -422.83, 5.91, 361.0, -422.83, -11.11, 361.0, -422.83, -28.13, 361.0, -422.83, -45.15, 361.0, -422.83, -62.17, 361.0, -422.83, -79.19, 361.0, -422.83, -96.21, 361.0, -422.83, -113.23, 361.0, -422.83, -130.25, 361.0, -422.83, -147.27, 361.0, -422.83, -164.29, 361.0, -422.83, -181.32, 361.0, -422.83, -198.34, 361.0, -422.83, -215.36, 361.0, -422.83, -232.38, 361.0, -422.83, -249.4, 361.0, -422.83, -266.42, 361.0, -422.83, -283.44, 361.0, -422.83, -300.46, 361.0, -422.83, -317.48, 361.0, -422.83, -334.5, 361.0, -422.83, -351.52, 361.0, -422.83, -368.54, 361.0, -422.83, -385.56, 361.0, -422.83, -402.59, 361.0, -422.83, -419.61, 361.0, -422.83, -436.63, 361.0, -422.83, -453.65, 361.0, -422.83, -470.67, 361.0, -422.83, -487.69, 361.0, -422.83, -504.71, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -334.8, -424.5, 500.59, -334.8, -424.5, 483.57, -334.8, -424.5, 466.55, -334.8, -424.5, 449.53, -334.8, -424.5, 432.51, -334.8, -424.5, 415.49, -334.8, -424.5, 398.47, -334.8, -424.5, 381.45, -334.8, -424.5, 364.43, -334.8, -424.5, 347.41, -334.8, -424.5, 330.39, -334.8, -424.5, 313.37, -334.8, -424.5, 296.35, -334.8, -424.5, 279.32, -334.8, -424.5, 262.3, -334.8, -424.5, 245.28, -334.8, -424.5, 228.26, -334.8, -424.5, 211.24, -334.8, -424.5, 194.22, -334.8, -424.5, 177.2, -334.8, -424.5, 160.18, -334.8, -424.5, 143.16, -334.8, -424.5, 126.14, -334.8, -424.5, 109.12, -334.8, -424.5, 92.1, -334.8, -424.5, 75.08, -334.8, -424.5, 58.06, -334.8, -424.5, 41.03, -334.8, -424.5, 24.01, -334.8, -424.5, 6.99, -334.8, -424.5, -10.03, -334.8, -424.5, -27.05, -334.8, -424.5, -44.07, -334.8, -424.5, -61.09, -334.8, -424.5, -78.11, -334.8, -424.5, -95.13, -334.8, -424.5, -112.15, -334.8, -424.5, -129.17, -334.8, -424.5, -146.19, -334.8, -424.5, -163.21, -334.8, -424.5, -180.24, -334.8, -424.5, -197.26, -334.8, -424.5, -214.28, -334.8, -424.5, -231.3, -334.8, -424.5, -248.32, -334.8, -424.5, -265.34, -334.8, -424.5, -282.36, -334.8, -424.5, -299.38, -334.8, -424.5, -316.4, -334.8, -424.5, -333.42, -334.8, -424.5, -350.44, -334.8, -424.5, -367.46, -334.8, -424.5, -384.48, -334.8, -424.5, -401.51, -334.8, -424.5, -418.53, -334.8, -424.5, -435.55, -334.8, -424.5, -452.57, -334.8, -424.5, -469.59, -334.8, -424.5, -486.61, -334.8, -424.5, -503.63, -211.35, -404.48, 498.63, -211.35, -404.48, 481.61, -211.35, -404.48, 464.59, -211.35, -404.48, 447.56, -211.35, -404.48, 430.54, -211.35, -404.48, 413.52, -211.35, -404.48, 396.5, -211.35, -404.48, 379.48, -211.35, -404.48, 362.46, -211.35, -404.48, 345.44, -211.35, -404.48, 328.42, -211.35, -404.48, 311.4, -211.35, -404.48, 294.38, -211.35, -404.48, 277.36, -211.35, -404.48, 260.34, -211.35, -404.48, 243.32, -211.35, -404.48, 226.29, -211.35, -404.48, 209.27, -211.35, -404.48, 192.25, -211.35, -404.48, 175.23, -211.35, -404.48, 158.21, -211.35, -404.48, 141.19, -211.35, -404.48, 124.17, -211.35, -404.48, 107.15, -211.35, -404.48, 90.13, -211.35, -404.48, 73.11, -211.35, -404.48, 56.09, -211.35, -404.48, 39.07, -211.35, -404.48, 22.05, -211.35, -404.48, 5.02, -211.35, -404.48, -12.0, -211.35, -404.48, -29.02, -211.35, -404.48, -46.04, -211.35, -404.48, -63.06, -211.35, -404.48, -80.08, -211.35, -404.48, -97.1, -211.35, -404.48, -114.12, -211.35, -404.48, -131.14, -211.35, -404.48, -148.16, -211.35, -404.48, -165.18, -211.35, -404.48, -182.2, -211.35, -404.48, -199.22, -211.35, -404.48, -216.24, -211.35, -404.48, -233.27, -211.35, -404.48, -250.29, -211.35, -404.48, -267.31, -211.35, -404.48, -284.33, -211.35, -404.48, -301.35, -211.35, -404.48, -318.37, -211.35, -404.48, -335.39, -211.35, -404.48, -352.41, -211.35, -404.48, -369.43, -211.35, -404.48, -386.45, -211.35, -404.48, -403.47, -211.35, -404.48, -420.49, -211.35, -404.48, -437.51, -211.35, -404.48, -454.54, -211.35, -404.48, -471.56, -211.35, -404.48, -490.38, -211.35, -404.48, -507.4, -88.05, -384.3, 500.02, -88.05, -384.3, 482.99, -88.05, -384.3, 465.97, -88.05, -384.3, 448.95, -88.05, -384.3, 431.93, -88.05, -384.3, 414.91, -88.05, -384.3, 397.89, -88.05, -384.3, 380.87, -88.05, -384.3, 363.85, -88.05, -384.3, 346.83, -88.05, -384.3, 329.81, -88.05, -384.3, 312.79, -88.05, -384.3, 295.77, -88.05, -384.3, 278.75, -88.05, -384.3, 261.72, -88.05, -384.3, 244.7, -88.05, -384.3, 227.68, -88.05, -384.3, 210.66, -88.05, -384.3, 193.64, -88.05, -384.3, 176.62, -88.05, -384.3, 159.6, -88.05, -384.3, 142.58, -88.05, -384.3, 125.56, -88.05, -384.3, 108.54, -88.05, -384.3, 91.52, -88.05, -384.3, 74.5, -88.05, -384.3, 57.48, -88.05, -384.3, 40.46, -88.05, -384.3, 23.43, -88.05, -384.3, 6.41, -88.05, -384.3, -10.61, -88.05, -384.3, -27.63, -88.05, -384.3, -44.65, -88.05, -384.3, -61.67, -88.05, -384.3, -78.69, -88.05, -384.3, -95.71, -88.05, -384.3, -112.73, -88.05, -384.3, -129.75, -88.05, -384.3, -146.77, -88.05, -384.3, -163.79, -88.05, -384.3, -180.81, -88.05, -384.3, -197.84, -88.05, -384.3, -214.86, -88.05, -384.3, -231.88, -88.05, -384.3, -248.9, -88.05, -384.3, -265.92, -88.05, -384.3, -282.94, -88.05, -384.3, -299.96, -88.05, -384.3, -316.98, -88.05, -384.3, -334.0, -88.05, -384.3, -351.02, -88.05, -384.3, -368.04, -88.05, -384.3, -385.06, -88.05, -384.3, -402.08, -88.05, -384.3, -419.11, -88.05, -384.3, -436.13, -88.05, -384.3, -453.15, -88.05, -384.3, -470.17, -88.05, -384.3, -487.19, -88.05, -384.3, -504.83, 35.54, -364.83, 497.71, 35.54, -364.83, 480.69, 35.54, -364.83, 463.67, 35.54, -364.83, 446.65, 35.54, -364.83, 429.63, 35.54, -364.83, 412.61, 35.54, -364.83, 395.59, 35.54, -364.83, 378.57, 35.54, -364.83, 361.55, 35.54, -364.83, 344.53, 35.54, -364.83, 327.51, 35.54, -364.83, 310.49, 35.54, -364.83, 293.47, 35.54, -364.83, 276.44, 35.54, -364.83, 259.42, 35.54, -364.83, 242.4, 35.54, -364.83, 225.38, 35.54, -364.83, 208.36, 35.54, -364.83, 191.34, 35.54, -364.83, 174.32, 35.54, -364.83, 157.3, 35.54, -364.83, 140.28, 35.54, -364.83, 123.26, 35.54, -364.83, 106.24, 35.54, -364.83, 89.22, 35.54, -364.83, 72.2, 35.54, -364.83, 55.18, 35.54, -364.83, 38.15, 35.54, -364.83, 21.13, 35.54, -364.83, 4.11, 35.54, -364.83, -12.91, 35.54, -364.83, -29.93, 35.54, -364.83, -46.95, 35.54, -364.83, -63.97, 35.54, -364.83, -80.99, 35.54, -364.83, -98.01, 35.54, -364.83, -115.03, 35.54, -364.83, -132.05, 35.54, -364.83, -149.07, 35.54, -364.83, -166.09, 35.54, -364.83, -183.12, 35.54, -364.83, -200.14, 35.54, -364.83, -217.16, 35.54, -364.83, -234.18, 35.54, -364.83, -251.2, 35.54, -364.83, -268.22, 35.54, -364.83, -285.24, 35.54, -364.83, -302.26, 35.54, -364.83, -319.28, 35.54, -364.83, -336.3, 35.54, -364.83, -353.32, 35.54, -364.83, -370.34, 35.54, -364.83, -387.36, 35.54, -364.83, -404.39, 35.54, -364.83, -421.41, 35.54, -364.83, -438.43, 35.54, -364.83, -455.45, 35.54, -364.83, -472.47, 35.54, -364.83, -489.49, 35.54, -364.83, -506.51, 158.94, -345.23, 499.83, 158.94, -345.23, 482.81, 158.94, -345.23, 465.79, 158.94, -345.23, 448.77, 158.94, -345.23, 431.75, 158.94, -345.23, 414.73, 158.94, -345.23, 397.71, 158.94, -345.23, 380.69, 158.94, -345.23, 363.67, 158.94, -345.23, 346.65, 158.94, -345.23, 329.63, 158.94, -345.23, 312.61, 158.94, -345.23, 295.59, 158.94, -345.23, 278.56, 158.94, -345.23, 261.54, 158.94, -345.23, 244.52, 158.94, -345.23, 227.5, 158.94, -345.23, 210.48, 158.94, -345.23, 193.46, 158.94, -345.23, 176.44, 158.94, -345.23, 159.42, 158.94, -345.23, 142.4, 158.94, -345.23, 125.38, 158.94, -345.23, 108.36, 158.94, -345.23, 91.34, 158.94, -345.23, 74.32, 158.94, -345.23, 57.3, 158.94, -345.23, 40.27, 158.94, -345.23, 23.25, 158.94, -345.23, 6.23, 158.94, -345.23, -10.79, 158.94, -345.23, -27.81, 158.94, -345.23, -44.83, 158.94, -345.23, -61.85, 158.94, -345.23, -78.87, 158.94, -345.23, -95.89, 158.94, -345.23, -112.91, 158.94, -345.23, -129.93, 158.94, -345.23, -146.95, 158.94, -345.23, -163.97, 158.94, -345.23, -181.0, 158.94, -345.23, -198.02, 158.94, -345.23, -215.04, 158.94, -345.23, -232.06, 158.94, -345.23, -249.08, 158.94, -345.23, -266.1, 158.94, -345.23, -283.12, 158.94, -345.23, -300.14, 158.94, -345.23, -317.16, 158.94, -345.23, -334.18, 158.94, -345.23, -351.2, 158.94, -345.23, -368.22, 158.94, -345.23, -385.24, 158.94, -345.23, -402.27, 158.94, -345.23, -419.29, 158.94, -345.23, -436.31, 158.94, -345.23, -453.33, 158.94, -345.23, -470.35, 158.94, -345.23, -487.37, 158.94, -345.23, -504.39, 282.18, -325.74, 498.44, 282.18, -325.74, 481.42, 282.18, -325.74, 464.4, 282.18, -325.74, 447.38, 282.18, -325.74, 430.36, 282.18, -325.74, 413.34, 282.18, -325.74, 396.32, 282.18, -325.74, 379.3, 282.18, -325.74, 362.28, 282.18, -325.74, 345.26, 282.18, -325.74, 328.24, 282.18, -325.74, 311.22, 282.18, -325.74, 294.2, 282.18, -325.74, 277.17, 282.18, -325.74, 260.15, 282.18, -325.74, 243.13, 282.18, -325.74, 226.11, 282.18, -325.74, 209.09, 282.18, -325.74, 192.07, 282.18, -325.74, 175.05, 282.18, -325.74, 158.03, 282.18, -325.74, 141.01, 282.18, -325.74, 123.99, 282.18, -325.74, 106.97, 282.18, -325.74, 89.95, 282.18, -325.74, 72.93, 282.18, -325.74, 55.91, 282.18, -325.74, 38.88, 282.18, -325.74, 21.86, 282.18, -325.74, 4.84, 282.18, -325.74, -12.18, 282.18, -325.74, -29.2, 282.18, -325.74, -46.22, 282.18, -325.74, -63.24, 282.18, -325.74, -80.26, 282.18, -325.74, -97.28, 282.18, -325.74, -114.3, 282.18, -325.74, -131.32, 282.18, -325.74, -148.34, 282.18, -325.74, -165.36, 282.18, -325.74, -182.39, 282.18, -325.74, -199.41, 282.18, -325.74, -216.43, 282.18, -325.74, -233.45, 282.18, -325.74, -250.47, 282.18, -325.74, -267.49, 282.18, -325.74, -284.51, 282.18, -325.74, -301.53, 282.18, -325.74, -318.55, 282.18, -325.74, -335.57, 282.18, -325.74, -352.59, 282.18, -325.74, -369.61, 282.18, -325.74, -386.63, 282.18, -325.74, -403.66, 282.18, -325.74, -420.68, 282.18, -325.74, -437.7, 282.18, -325.74, -454.72, 282.18, -325.74, -471.74, 282.18, -325.74, -488.76, 282.18, -325.74, -505.78, 405.83, -306.38, 495.13, 405.83, -306.38, 478.11, 405.83, -306.38, 461.09, 405.83, -306.38, 444.07, 405.83, -306.38, 427.05, 405.83, -306.38, 410.03, 405.83, -306.38, 393.01, 405.83, -306.38, 375.99, 405.83, -306.38, 358.97, 405.83, -306.38, 341.95, 405.83, -306.38, 324.93, 405.83, -306.38, 307.91, 405.83, -306.38, 290.89, 405.83, -306.38, 273.86, 405.83, -306.38, 256.84, 405.83, -306.38, 239.82, 405.83, -306.38, 222.8, 405.83, -306.38, 205.78, 405.83, -306.38, 188.76, 405.83, -306.38, 171.74, 405.83, -306.38, 154.72, 405.83, -306.38, 137.7, 405.83, -306.38, 120.68, 405.83, -306.38, 103.66, 405.83, -306.38, 86.64, 405.83, -306.38, 69.62, 405.83, -306.38, 52.6, 405.83, -306.38, 35.57, 405.83, -306.38, 18.55, 405.83, -306.38, 1.53, 405.83, -306.38, -15.49, 405.83, -306.38, -32.51, 405.83, -306.38, -49.53, 405.83, -306.38, -66.55, 405.83, -306.38, -83.57, 405.83, -306.38, -100.59, 405.83, -306.38, -117.61, 405.83, -306.38, -134.63, 405.83, -306.38, -151.65, 405.83, -306.38, -168.67, 405.83, -306.38, -185.7, 405.83, -306.38, -202.72, 405.83, -306.38, -219.74, 405.83, -306.38, -236.76, 405.83, -306.38, -253.78, 405.83, -306.38, -270.8, 405.83, -306.38, -287.82, 405.83, -306.38, -304.84, 405.83, -306.38, -321.86, 405.83, -306.38, -338.88, 405.83, -306.38, -355.9, 405.83, -306.38, -372.92, 405.83, -306.38, -389.94, 405.83, -306.38, -406.97, 405.83, -306.38, -423.99, 405.83, -306.38, -441.01, 405.83, -306.38, -458.03, 405.83, -306.38, -475.05, 405.83, -306.38, -492.07, 405.83, -306.38, -509.09, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -413.46, -327.27, 499.59, -413.46, -327.27, 482.57, -413.46, -327.27, 465.55, -413.46, -327.27, 448.53, -413.46, -327.27, 431.51, -413.46, -327.27, 414.49, -413.46, -327.27, 397.47, -413.46, -327.27, 380.45, -413.46, -327.27, 363.43, -413.46, -327.27, 346.41, -413.46, -327.27, 329.39, -413.46, -327.27, 312.37, -413.46, -327.27, 295.35, -413.46, -327.27, 278.32, -413.46, -327.27, 261.3, -413.46, -327.27, 244.28, -413.46, -327.27, 227.26, -413.46, -327.27, 210.24, -413.46, -327.27, 193.22, -413.46, -327.27, 176.2, -413.46, -327.27, 159.18, -413.46, -327.27, 142.16, -413.46, -327.27, 125.14, -413.46, -327.27, 108.12, -413.46, -327.27, 91.1, -413.46, -327.27, 74.08, -413.46, -327.27, 57.06, -413.46, -327.27, 40.03, -413.46, -327.27, 23.01, -413.46, -327.27, 5.99, -413.46, -327.27, -11.03, -413.46, -327.27, -28.05, -413.46, -327.27, -45.07, -413.46, -327.27, -62.09, -413.46, -327.27, -79.11, -413.46, -327.27, -96.13, -413.46, -327.27, -113.15, -413.46, -327.27, -130.17, -413.46, -327.27, -147.19, -413.46, -327.27, -164.21, -413.46, -327.27, -181.24, -413.46, -327.27, -198.26, -413.46, -327.27, -215.28, -413.46, -327.27, -232.3, -413.46, -327.27, -249.32, -413.46, -327.27, -266.34, -413.46, -327.27, -283.36, -413.46, -327.27, -300.38, -413.46, -327.27, -317.4, -413.46, -327.27, -334.42, -413.46, -327.27, -351.44, -413.46, -327.27, -368.46, -413.46, -327.27, -385.48, -413.46, -327.27, -402.51, -413.46, -327.27, -419.53, -413.46, -327.27, -436.55, -413.46, -327.27, -453.57, -413.46, -327.27, -470.59, -413.46, -327.27, -487.61, -413.46, -327.27, -504.63, -290.66, -307.38, 504.02, -290.66, -307.38, 487.0, -290.66, -307.38, 469.98, -290.66, -307.38, 452.96, -290.66, -307.38, 435.94, -290.66, -307.38, 418.92, -290.66, -307.38, 401.9, -290.66, -307.38, 384.88, -290.66, -307.38, 367.86, -290.66, -307.38, 350.84, -290.66, -307.38, 333.82, -290.66, -307.38, 316.8, -290.66, -307.38, 299.78, -290.66, -307.38, 282.75, -290.66, -307.38, 265.73, -290.66, -307.38, 248.71, -290.66, -307.38, 231.69, -290.66, -307.38, 214.67, -290.66, -307.38, 197.65, -290.66, -307.38, 180.63, -290.66, -307.38, 163.61, -290.66, -307.38, 146.59, -290.66, -307.38, 129.57, -290.66, -307.38, 112.55, -290.66, -307.38, 95.65, -290.66, -307.38, 78.63, -290.66, -307.38, 61.61, -290.66, -307.38, 44.58, -290.66, -307.38, 27.56, -290.66, -307.38, 10.54, -290.66, -307.38, -6.48, -290.66, -307.38, -23.5, -290.66, -307.38, -40.52, -290.66, -307.38, -57.54, -290.66, -307.38, -74.56, -290.66, -307.38, -91.58, -290.66, -307.38, -108.6, -290.66, -307.38, -125.62, -290.66, -307.38, -142.64, -290.66, -307.38, -159.66, -290.66, -307.38, -176.69, -290.66, -307.38, -193.71, -290.66, -307.38, -210.73, -290.66, -307.38, -227.75, -290.66, -307.38, -244.77, -290.66, -307.38, -261.79, -290.66, -307.38, -278.81, -290.66, -307.38, -295.83, -290.66, -307.38, -312.85, -290.66, -307.38, -329.87, -290.66, -307.38, -346.89, -290.66, -307.38, -363.91, -290.66, -307.38, -380.93, -290.66, -307.38, -397.96, -290.66, -307.38, -414.98, -290.66, -307.38, -432.0, -290.66, -307.38, -449.02, -290.66, -307.38, -466.04, -290.66, -307.38, -483.06, -290.66, -307.38, -500.08, -166.4, -287.79, 497.78, -166.4, -287.79, 480.51, -166.4, -287.79, 463.49, -166.4, -287.79, 446.47, -166.4, -287.79, 429.45, -166.4, -287.79, 412.43, -166.4, -287.79, 395.41, -166.4, -287.79, 378.39, -166.4, -287.79, 361.37, -166.4, -287.79, 344.35, -166.4, -287.79, 327.33, -166.4, -287.79, 310.31, -166.4, -287.79, 293.29, -166.4, -287.79, 276.26, -166.4, -287.79, 259.24, -166.4, -287.79, 242.22, -166.4, -287.79, 225.2, -166.4, -287.79, 208.3, -166.4, -287.79, 191.28, -166.4, -287.79, 174.26, -166.4, -287.79, 157.24, -166.4, -287.79, 140.22, -166.4, -287.79, 123.2, -166.4, -287.79, 106.18, -166.4, -287.79, 89.16, -166.4, -287.79, 72.14, -166.4, -287.79, 55.11, -166.4, -287.79, 38.09, -166.4, -287.79, 21.07, -166.4, -287.79, 4.05, -166.4, -287.79, -12.97, -166.4, -287.79, -29.99, -166.4, -287.79, -47.01, -166.4, -287.79, -64.03, -166.4, -287.79, -81.05, -166.4, -287.79, -98.07, -166.4, -287.79, -115.09, -166.4, -287.79, -132.11, -166.4, -287.79, -149.13, -166.4, -287.79, -166.15, -166.4, -287.79, -183.18, -166.4, -287.79, -200.2, -166.4, -287.79, -217.22, -166.4, -287.79, -234.24, -166.4, -287.79, -251.26, -166.4, -287.79, -268.28, -166.4, -287.79, -285.3, -166.4, -287.79, -302.32, -166.4, -287.79, -319.34, -166.4, -287.79, -336.36, -166.4, -287.79, -353.38, -166.4, -287.79, -370.4, -166.4, -287.79, -387.29, -166.4, -287.79, -404.32, -166.4, -287.79, -421.34, -166.4, -287.79, -438.36, -166.4, -287.79, -455.38, -166.4, -287.79, -472.4, -166.4, -287.79, -489.42, -166.4, -287.79, -506.44, -43.27, -267.52, 500.43, -43.27, -267.52, 483.1, -43.27, -267.52, 466.08, -43.27, -267.52, 449.06, -43.27, -267.52, 432.04, -43.27, -267.52, 415.02, -43.27, -267.52, 398.0, -43.27, -267.52, 380.98, -43.27, -267.52, 363.96, -43.27, -267.52, 346.94, -43.27, -267.52, 329.92, -43.27, -267.52, 312.9, -43.27, -267.52, 295.88, -43.27, -267.52, 278.85, -43.27, -267.52, 261.83, -43.27, -267.52, 244.81, -43.27, -267.52, 227.79, -43.27, -267.52, 210.77, -43.27, -267.52, 193.75, -43.27, -267.52, 176.73, -43.27, -267.52, 159.71, -43.27, -267.52, 142.69, -43.27, -267.52, 125.67, -43.27, -267.52, 108.65, -43.27, -267.52, 91.63, -43.27, -267.52, 74.61, -43.27, -267.52, 57.59, -43.27, -267.52, 40.56, -43.27, -267.52, 23.54, -43.27, -267.52, 6.52, -43.27, -267.52, -10.5, -43.27, -267.52, -27.52, -43.27, -267.52, -44.54, -43.27, -267.52, -61.56, -43.27, -267.52, -78.58, -43.27, -267.52, -95.6, -43.27, -267.52, -112.62, -43.27, -267.52, -129.64, -43.27, -267.52, -146.66, -43.27, -267.52, -163.68, -43.27, -267.52, -180.71, -43.27, -267.52, -197.73, -43.27, -267.52, -214.75, -43.27, -267.52, -231.77, -43.27, -267.52, -248.79, -43.27, -267.52, -265.81, -43.27, -267.52, -282.83, -43.27, -267.52, -299.85, -43.27, -267.52, -316.87, -43.27, -267.52, -333.89, -43.27, -267.52, -350.91, -43.27, -267.52, -367.93, -43.27, -267.52, -384.95, -43.27, -267.52, -401.98, -43.27, -267.52, -419.0, -43.27, -267.52, -436.02, -43.27, -267.52, -453.04, -43.27, -267.52, -470.06, -43.27, -267.52, -487.08, -43.27, -267.52, -504.1, 79.41, -248.24, 498.9, 79.41, -248.24, 481.88, 79.41, -248.24, 464.86, 79.41, -248.24, 447.84, 79.41, -248.24, 430.82, 79.41, -248.24, 413.8, 79.41, -248.24, 396.78, 79.41, -248.24, 379.76, 79.41, -248.24, 362.74, 79.41, -248.24, 345.72, 79.41, -248.24, 328.7, 79.41, -248.24, 311.68, 79.41, -248.24, 294.66, 79.41, -248.24, 277.63, 79.41, -248.24, 260.61, 79.41, -248.24, 243.59, 79.41, -248.24, 226.57, 79.41, -248.24, 209.55, 79.41, -248.24, 192.53, 79.41, -248.24, 175.51, 79.41, -248.24, 158.49, 79.41, -248.24, 141.47, 79.41, -248.24, 124.45, 79.41, -248.24, 107.43, 79.41, -248.24, 90.41, 79.41, -248.24, 73.39, 79.41, -248.24, 56.37, 79.41, -248.24, 39.34, 79.41, -248.24, 22.32, 79.41, -248.24, 5.3, 79.41, -248.24, -11.72, 79.41, -248.24, -28.74, 79.41, -248.24, -45.76, 79.41, -248.24, -62.78, 79.41, -248.24, -79.8, 79.41, -248.24, -96.82, 79.41, -248.24, -113.84, 79.41, -248.24, -130.86, 79.41, -248.24, -147.88, 79.41, -248.24, -164.9, 79.41, -248.24, -181.93, 79.41, -248.24, -198.95, 79.41, -248.24, -215.97, 79.41, -248.24, -232.99, 79.41, -248.24, -250.01, 79.41, -248.24, -267.03, 79.41, -248.24, -284.05, 79.41, -248.24, -301.07, 79.41, -248.24, -318.09, 79.41, -248.24, -335.11, 79.41, -248.24, -352.13, 79.41, -248.24, -369.15, 79.41, -248.24, -386.17, 79.41, -248.24, -403.2, 79.41, -248.24, -420.22, 79.41, -248.24, -437.24, 79.41, -248.24, -454.26, 79.41, -248.24, -471.28, 79.41, -248.24, -488.3, 79.41, -248.24, -505.32, 210.47, -209.77, 496.94, 210.47, -209.77, 479.92, 210.47, -209.77, 462.9, 210.47, -209.77, 445.88, 210.47, -209.77, 428.86, 210.47, -209.77, 411.84, 210.47, -209.77, 394.82, 210.47, -209.77, 377.8, 210.47, -209.77, 360.78, 210.47, -209.77, 343.76, 210.47, -209.77, 326.74, 210.47, -209.77, 309.72, 210.47, -209.77, 292.7, 210.47, -209.77, 275.67, 210.47, -209.77, 258.65, 210.47, -209.77, 241.63, 210.47, -209.77, 224.61, 210.47, -209.77, 207.59, 210.47, -209.77, 190.57, 210.47, -209.77, 173.55, 210.47, -209.77, 156.53, 210.47, -209.77, 139.51, 210.47, -209.77, 122.49, 210.47, -209.77, 105.47, 210.47, -209.77, 88.45, 210.47, -209.77, 71.43, 210.47, -209.77, 54.41, 210.47, -209.77, 37.38, 210.47, -209.77, 20.36, 210.47, -209.77, 3.34, 210.47, -209.77, -13.68, 210.47, -209.77, -30.7, 210.47, -209.77, -47.72, 210.47, -209.77, -64.74, 210.47, -209.77, -81.76, 210.47, -209.77, -98.78, 210.47, -209.77, -115.8, 210.47, -209.77, -132.82, 210.47, -209.77, -149.84, 210.47, -209.77, -166.86, 210.47, -209.77, -183.89, 210.47, -209.77, -200.91, 210.47, -209.77, -217.93, 210.47, -209.77, -234.95, 210.47, -209.77, -251.97, 210.47, -209.77, -268.99, 210.47, -209.77, -286.01, 210.47, -209.77, -303.03, 210.47, -209.77, -320.05, 210.47, -209.77, -337.07, 210.47, -209.77, -354.09, 210.47, -209.77, -371.11, 210.47, -209.77, -388.13, 210.47, -209.77, -405.16, 210.47, -209.77, -422.18, 210.47, -209.77, -439.2, 210.47, -209.77, -456.22, 210.47, -209.77, -473.24, 210.47, -209.77, -490.26, 210.47, -209.77, -507.28, 326.85, -209.07, 498.42, 326.85, -209.07, 481.4, 326.85, -209.07, 464.38, 326.85, -209.07, 447.36, 326.85, -209.07, 430.34, 326.85, -209.07, 413.32, 326.85, -209.07, 396.3, 326.85, -209.07, 379.28, 326.85, -209.07, 362.26, 326.85, -209.07, 345.24, 326.85, -209.07, 328.22, 326.85, -209.07, 311.2, 326.85, -209.07, 294.18, 326.85, -209.07, 277.15, 326.85, -209.07, 260.13, 326.85, -209.07, 243.11, 326.85, -209.07, 226.09, 326.85, -209.07, 209.07, 326.85, -209.07, 192.05, 326.85, -209.07, 175.03, 326.85, -209.07, 158.01, 326.85, -209.07, 140.99, 326.85, -209.07, 123.97, 326.85, -209.07, 106.95, 326.85, -209.07, 89.93, 326.85, -209.07, 72.91, 326.85, -209.07, 55.89, 326.85, -209.07, 38.86, 326.85, -209.07, 21.84, 326.85, -209.07, 4.82, 326.85, -209.07, -12.2, 326.85, -209.07, -29.22, 326.85, -209.07, -46.24, 326.85, -209.07, -63.26, 326.85, -209.07, -80.28, 326.85, -209.07, -97.3, 326.85, -209.07, -114.32, 326.85, -209.07, -131.34, 326.85, -209.07, -148.36, 326.85, -209.07, -165.38, 326.85, -209.07, -182.41, 326.85, -209.07, -199.43, 326.85, -209.07, -216.45, 326.85, -209.07, -233.47, 326.85, -209.07, -250.49, 326.85, -209.07, -267.51, 326.85, -209.07, -284.53, 326.85, -209.07, -301.55, 326.85, -209.07, -318.57, 326.85, -209.07, -335.59, 326.85, -209.07, -352.61, 326.85, -209.07, -369.63, 326.85, -209.07, -386.65, 326.85, -209.07, -403.68, 326.85, -209.07, -420.7, 326.85, -209.07, -437.72, 326.85, -209.07, -454.74, 326.85, -209.07, -471.76, 326.85, -209.07, -488.78, 326.85, -209.07, -505.8, 443.6, -194.16, 516.67, 443.6, -194.12, 499.65, 443.63, -194.08, 482.63, 443.66, -194.04, 465.61, 443.7, -194.02, 448.59, 443.75, -194.01, 431.57, 443.8, -194.01, 414.55, 443.85, -194.02, 397.53, 443.89, -194.04, 380.51, 443.93, -194.08, 363.49, 443.96, -194.12, 346.47, 443.96, -194.17, 329.45, 443.95, -194.22, 312.43, 443.92, -194.26, 295.4, 443.88, -194.29, 278.38, 443.84, -194.31, 261.36, 443.8, -194.31, 244.34, 443.75, -194.29, 227.32, 443.72, -194.26, 210.3, 443.72, -194.21, 193.28, 443.75, -194.17, 176.26, 443.8, -194.16, 159.24, 443.85, -194.18, 142.22, 443.88, -194.22, 125.2, 443.92, -194.25, 108.18, 443.95, -194.29, 91.16, 443.96, -194.34, 74.14, 443.96, -194.38, 57.11, 443.94, -194.43, 40.09, 443.92, -194.47, 23.07, 443.89, -194.5, 6.05, 443.85, -194.52, -10.97, 443.8, -194.52, -27.99, 443.75, -194.52, -45.01, 443.71, -194.52, -62.03, 443.66, -194.52, -79.05, 443.62, -194.51, -96.07, 443.58, -194.49, -113.09, 443.54, -194.46, -130.11, 443.5, -194.43, -147.13, 443.47, -194.4, -164.16, 443.44, -194.35, -181.18, 443.43, -194.3, -198.2, 443.43, -194.25, -215.22, 443.46, -194.21, -232.24, 443.5, -194.18, -249.26, 443.55, -194.16, -266.28, 443.59, -194.18, -281.3, 443.65, -194.2, -300.32, 443.68, -194.23, -315.34, 443.72, -194.27, -334.36, 443.75, -194.31, -351.38, 443.78, -194.34, -368.4, 443.81, -194.38, -385.43, 443.85, -194.42, -402.45, 443.89, -194.44, -417.46, 443.93, -194.47, -436.49, 443.96, -194.49, -451.51, 444.0, -194.48, -470.53, 444.05, -194.46, -487.55, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -492.43, -230.16, 497.6, -492.43, -230.16, 480.58, -492.43, -230.16, 463.56, -492.43, -230.16, 446.54, -492.43, -230.16, 429.52, -492.43, -230.16, 412.5, -492.43, -230.16, 395.48, -492.43, -230.16, 378.46, -492.43, -230.16, 361.44, -492.43, -230.16, 344.42, -492.43, -230.16, 327.4, -492.43, -230.16, 310.38, -492.43, -230.16, 293.36, -492.43, -230.16, 276.33, -492.43, -230.16, 259.31, -492.43, -230.16, 242.29, -492.43, -230.16, 225.27, -492.43, -230.16, 208.25, -492.43, -230.16, 191.23, -492.43, -230.16, 174.21, -492.43, -230.16, 157.19, -492.43, -230.16, 140.17, -492.43, -230.16, 123.15, -492.43, -230.16, 106.13, -492.43, -230.16, 89.11, -492.43, -230.16, 72.09, -492.43, -230.16, 55.07, -492.43, -230.16, 38.04, -492.43, -230.16, 21.02, -492.43, -230.16, 4.0, -492.43, -230.16, -13.02, -492.43, -230.16, -30.04, -492.43, -230.16, -47.06, -492.43, -230.16, -64.08, -492.43, -230.16, -81.1, -492.43, -230.16, -98.12, -492.43, -230.16, -115.14, -492.43, -230.16, -132.16, -492.43, -230.16, -149.18, -492.43, -230.16, -166.2, -492.43, -230.16, -183.23, -492.43, -230.16, -200.25, -492.43, -230.16, -217.27, -492.43, -230.16, -234.29, -492.43, -230.16, -251.31, -492.43, -230.16, -268.33, -492.43, -230.16, -285.35, -492.43, -230.16, -302.37, -492.43, -230.16, -319.39, -492.43, -230.16, -336.41, -492.43, -230.16, -353.43, -492.43, -230.16, -370.45, -492.43, -230.16, -387.47, -492.43, -230.16, -404.5, -492.43, -230.16, -421.52, -492.43, -230.16, -438.54, -492.43, -230.16, -455.56, -492.43, -230.16, -472.58, -492.43, -230.16, -489.6, -492.43, -230.16, -506.62, -368.93, -210.23, 500.53, -368.93, -210.23, 483.51, -368.93, -210.23, 466.49, -368.93, -210.23, 449.47, -368.93, -210.23, 432.45, -368.93, -210.23, 415.43, -368.93, -210.23, 398.41, -368.93, -210.23, 381.39, -368.93, -210.23, 364.37, -368.93, -210.23, 347.35, -368.93, -210.23, 330.33, -368.93, -210.23, 313.31, -368.93, -210.23, 296.29, -368.93, -210.23, 279.26, -368.93, -210.23, 262.24, -368.93, -210.23, 245.22, -368.93, -210.23, 228.2, -368.93, -210.23, 211.18, -368.93, -210.23, 194.16, -368.93, -210.23, 177.14, -368.93, -210.23, 160.12, -368.93, -210.23, 143.1, -368.93, -210.23, 126.08, -368.93, -210.23, 109.06, -368.93, -210.23, 92.04, -368.93, -210.23, 75.02, -368.93, -210.23, 58.0, -368.93, -210.23, 40.97, -368.93, -210.23, 23.95, -368.93, -210.23, 6.93, -368.93, -210.23, -10.09, -368.93, -210.23, -27.11, -368.93, -210.23, -44.13, -368.93, -210.23, -61.15, -368.93, -210.23, -78.17, -368.93, -210.23, -95.19, -368.93, -210.23, -112.21, -368.93, -210.23, -129.23, -368.93, -210.23, -146.25, -368.93, -210.23, -163.27, -368.93, -210.23, -180.3, -368.93, -210.23, -197.32, -368.93, -210.23, -214.34, -368.93, -210.23, -231.36, -368.93, -210.23, -248.38, -368.93, -210.23, -265.4, -368.93, -210.23, -282.42, -368.93, -210.23, -299.44, -368.93, -210.23, -316.46, -368.93, -210.23, -333.48, -368.93, -210.23, -350.5, -368.93, -210.23, -367.52, -368.93, -210.23, -384.54, -368.93, -210.23, -401.57, -368.93, -210.23, -418.59, -368.93, -210.23, -435.61, -368.93, -210.23, -452.63, -368.93, -210.23, -469.65, -368.93, -210.23, -486.67, -368.93, -210.23, -503.69, -245.65, -190.49, 501.48, -245.65, -190.49, 484.46, -245.65, -190.49, 467.44, -245.65, -190.49, 450.42, -245.65, -190.49, 433.4, -245.65, -190.49, 416.38, -245.65, -190.49, 399.36, -245.65, -190.49, 382.34, -245.65, -190.49, 365.32, -245.65, -190.49, 348.3, -245.65, -190.49, 331.28, -245.65, -190.49, 314.26, -245.65, -190.49, 297.23, -245.65, -190.49, 280.21, -245.65, -190.49, 263.19, -245.65, -190.49, 246.17, -245.65, -190.49, 229.15, -245.65, -190.49, 212.13, -245.65, -190.49, 195.11, -245.65, -190.49, 178.09, -245.65, -190.49, 161.07, -245.65, -190.49, 144.05, -245.65, -190.49, 127.03, -245.65, -190.49, 110.01, -245.65, -190.49, 92.99, -245.65, -190.49, 75.96, -245.65, -190.49, 58.94, -245.65, -190.49, 41.92, -245.65, -190.49, 24.9, -245.65, -190.49, 7.88, -245.65, -190.49, -9.14, -245.65, -190.49, -26.03, -245.65, -190.49, -42.93, -245.65, -190.49, -59.95, -245.65, -190.49, -76.97, -245.65, -190.49, -93.99, -245.65, -190.49, -110.88, -245.65, -190.49, -127.9, -245.65, -190.49, -144.92, -245.65, -190.49, -161.95, -245.65, -190.49, -178.97, -245.65, -190.49, -195.99, -245.65, -190.49, -213.01, -245.65, -190.49, -230.03, -245.65, -190.49, -247.05, -245.65, -190.49, -264.07, -245.65, -190.49, -281.09, -245.65, -190.49, -298.11, -245.65, -190.49, -315.13, -245.65, -190.49, -332.15, -245.65, -190.49, -349.17, -245.65, -190.49, -366.19, -245.65, -190.49, -383.22, -245.65, -190.49, -400.24, -245.65, -190.49, -417.26, -245.65, -190.49, -434.15, -245.65, -190.49, -451.07, -245.65, -190.49, -467.97, -245.65, -190.49, -484.99, -245.65, -190.49, -502.01, -121.77, -171.03, 502.27, -121.77, -171.03, 485.25, -121.77, -171.03, 468.23, -121.77, -171.03, 451.21, -121.77, -171.03, 434.19, -121.77, -171.03, 417.17, -121.77, -171.03, 400.15, -121.77, -171.03, 383.13, -121.77, -171.03, 366.11, -121.77, -171.03, 349.09, -121.77, -171.03, 332.07, -121.77, -171.03, 315.05, -121.77, -171.03, 298.03, -121.77, -171.03, 281.0, -121.77, -171.03, 263.98, -121.77, -171.03, 246.96, -121.77, -171.03, 229.94, -121.77, -171.03, 212.92, -121.77, -171.03, 195.9, -121.77, -171.03, 178.88, -121.77, -171.03, 161.86, -121.77, -171.03, 144.84, -121.77, -171.03, 127.82, -121.77, -171.03, 110.8, -121.77, -171.03, 93.78, -121.77, -171.03, 76.76, -121.77, -171.03, 59.73, -121.77, -171.03, 42.71, -121.77, -171.03, 25.69, -121.77, -171.03, 8.67, -121.77, -171.03, -8.35, -121.77, -171.03, -25.37, -121.77, -171.03, -42.39, -121.77, -171.03, -59.41, -121.77, -171.03, -76.43, -121.77, -171.03, -93.45, -121.77, -171.03, -110.47, -121.77, -171.03, -127.49, -121.77, -171.03, -144.51, -121.77, -171.03, -161.54, -121.77, -171.03, -178.56, -121.77, -171.03, -195.58, -121.77, -171.03, -212.6, -121.77, -171.03, -229.62, -121.77, -171.03, -246.64, -121.77, -171.03, -263.66, -121.77, -171.03, -280.68, -121.77, -171.03, -297.57, -121.77, -171.03, -314.59, -121.77, -171.03, -331.49, -121.77, -171.03, -348.51, -121.77, -171.03, -365.53, -121.77, -171.03, -382.55, -121.77, -171.03, -399.58, -121.77, -171.03, -416.6, -121.77, -171.03, -433.48, -121.77, -171.03, -450.5, -121.77, -171.03, -467.52, -121.77, -171.03, -484.54, -121.77, -171.03, -501.56, 1.71, -150.63, 497.25, 1.71, -150.63, 480.23, 1.71, -150.63, 463.21, 1.71, -150.63, 446.19, 1.71, -150.63, 429.17, 1.71, -150.63, 412.15, 1.71, -150.63, 395.13, 1.71, -150.63, 378.11, 1.71, -150.63, 361.09, 1.71, -150.63, 344.07, 1.71, -150.63, 327.05, 1.71, -150.63, 310.03, 1.71, -150.63, 293.01, 1.71, -150.63, 275.98, 1.71, -150.63, 258.96, 1.71, -150.63, 241.94, 1.71, -150.63, 224.92, 1.71, -150.63, 207.9, 1.71, -150.63, 190.88, 1.71, -150.63, 173.86, 1.71, -150.63, 156.84, 1.71, -150.63, 139.82, 1.71, -150.63, 122.8, 1.71, -150.63, 105.78, 1.71, -150.63, 88.76, 1.71, -150.63, 71.74, 1.71, -150.63, 54.72, 1.71, -150.63, 37.69, 1.71, -150.63, 20.67, 1.71, -150.63, 3.65, 1.71, -150.63, -13.37, 1.71, -150.63, -30.39, 1.71, -150.63, -47.41, 1.71, -150.63, -64.43, 1.71, -150.63, -81.45, 1.71, -150.63, -98.47, 1.71, -150.63, -115.49, 1.71, -150.63, -132.51, 1.71, -150.63, -149.53, 1.71, -150.63, -166.55, 1.71, -150.63, -183.58, 1.71, -150.63, -200.6, 1.71, -150.63, -217.62, 1.71, -150.63, -234.64, 1.71, -150.63, -251.66, 1.71, -150.63, -268.68, 1.71, -150.63, -285.7, 1.71, -150.63, -302.72, 1.71, -150.63, -319.74, 1.71, -150.63, -336.76, 1.71, -150.63, -353.78, 1.71, -150.63, -370.8, 1.71, -150.63, -387.82, 1.71, -150.63, -404.85, 1.71, -150.63, -421.87, 1.71, -150.63, -438.89, 1.71, -150.63, -455.91, 1.71, -150.63, -472.93, 1.71, -150.63, -489.95, 1.71, -150.63, -506.97, 124.97, -131.25, 493.65, 124.97, -131.25, 476.63, 124.97, -131.25, 459.61, 124.97, -131.25, 442.59, 124.97, -131.25, 425.57, 124.97, -131.25, 408.55, 124.97, -131.25, 391.53, 124.97, -131.25, 374.51, 124.97, -131.25, 357.49, 124.97, -131.25, 340.47, 124.97, -131.25, 323.45, 124.97, -131.25, 306.43, 124.97, -131.25, 289.41, 124.97, -131.25, 272.38, 124.97, -131.25, 255.36, 124.97, -131.25, 238.34, 124.97, -131.25, 221.32, 124.97, -131.25, 204.3, 124.97, -131.25, 187.28, 124.97, -131.25, 170.26, 124.97, -131.25, 153.24, 124.97, -131.25, 136.22, 124.97, -131.25, 119.2, 124.97, -131.25, 102.18, 124.97, -131.25, 85.16, 124.97, -131.25, 68.14, 124.97, -131.25, 51.12, 124.97, -131.25, 34.09, 124.97, -131.25, 17.07, 124.97, -131.25, 0.05, 124.97, -131.25, -16.97, 124.97, -131.25, -33.99, 124.97, -131.25, -51.01, 124.97, -131.25, -68.03, 124.97, -131.25, -85.05, 124.97, -131.25, -102.07, 124.97, -131.25, -119.09, 124.97, -131.25, -136.11, 124.97, -131.25, -153.13, 124.97, -131.25, -170.15, 124.97, -131.25, -187.18, 124.97, -131.25, -204.2, 124.97, -131.25, -221.22, 124.97, -131.25, -238.24, 124.97, -131.25, -255.26, 124.97, -131.25, -272.28, 124.97, -131.25, -289.3, 124.97, -131.25, -306.32, 124.97, -131.25, -323.34, 124.97, -131.25, -340.36, 124.97, -131.25, -357.38, 124.97, -131.25, -374.4, 124.97, -131.25, -391.42, 124.97, -131.25, -408.45, 124.97, -131.25, -425.47, 124.97, -131.25, -442.49, 124.97, -131.25, -459.51, 124.97, -131.25, -476.53, 124.97, -131.25, -493.55, 124.97, -131.25, -510.57, 248.15, -111.87, 498.34, 248.15, -111.87, 481.01, 248.15, -111.87, 463.99, 248.15, -111.87, 446.97, 248.15, -111.87, 429.95, 248.15, -111.87, 412.93, 248.15, -111.87, 395.91, 248.15, -111.87, 378.89, 248.15, -111.87, 361.87, 248.15, -111.87, 344.85, 248.15, -111.87, 327.83, 248.15, -111.87, 310.81, 248.15, -111.87, 293.79, 248.15, -111.87, 276.76, 248.15, -111.87, 259.74, 248.15, -111.87, 242.72, 248.15, -111.87, 225.7, 248.15, -111.87, 208.68, 248.15, -111.87, 191.66, 248.15, -111.87, 174.64, 248.15, -111.87, 157.62, 248.15, -111.87, 140.6, 248.15, -111.87, 123.58, 248.15, -111.87, 106.56, 248.15, -111.87, 89.54, 248.15, -111.87, 72.52, 248.15, -111.87, 55.5, 248.15, -111.87, 38.47, 248.15, -111.87, 21.45, 248.15, -111.87, 4.43, 248.15, -111.87, -12.59, 248.15, -111.87, -29.61, 248.15, -111.87, -46.63, 248.15, -111.87, -63.65, 248.15, -111.87, -80.67, 248.15, -111.87, -97.69, 248.15, -111.87, -114.71, 248.15, -111.87, -131.73, 248.15, -111.87, -148.75, 248.15, -111.87, -165.77, 248.15, -111.87, -182.8, 248.15, -111.87, -199.82, 248.15, -111.87, -216.84, 248.15, -111.87, -233.86, 248.15, -111.87, -250.88, 248.15, -111.87, -267.9, 248.15, -111.87, -284.92, 248.15, -111.87, -301.94, 248.15, -111.87, -318.96, 248.15, -111.87, -335.98, 248.15, -111.87, -353.0, 248.15, -111.87, -370.02, 248.15, -111.87, -387.04, 248.15, -111.87, -404.07, 248.15, -111.87, -421.09, 248.15, -111.87, -438.11, 248.15, -111.87, -455.13, 248.15, -111.87, -472.15, 248.15, -111.87, -489.17, 248.15, -111.87, -506.19, 371.56, -92.18, 501.58, 371.56, -92.18, 485.56, 371.56, -92.18, 467.54, 371.56, -92.18, 451.52, 371.56, -92.18, 433.5, 371.56, -92.18, 417.48, 371.56, -92.18, 399.46, 371.56, -92.18, 383.44, 371.56, -92.18, 365.42, 371.56, -92.18, 349.4, 371.56, -92.18, 331.38, 371.56, -92.18, 315.36, 371.56, -92.18, 297.33, 371.56, -92.18, 281.31, 371.56, -92.18, 263.29, 371.56, -92.18, 247.27, 371.56, -92.18, 229.25, 371.56, -92.18, 213.23, 371.56, -92.18, 195.21, 371.56, -92.18, 179.19, 371.56, -92.18, 161.17, 371.56, -92.18, 145.15, 371.56, -92.18, 127.13, 371.56, -92.18, 111.11, 371.56, -92.18, 93.09, 371.56, -92.18, 77.07, 371.56, -92.18, 59.04, 371.56, -92.18, 43.02, 371.56, -92.18, 25.0, 371.56, -92.18, 8.98, 371.56, -92.18, -9.04, 371.56, -92.18, -25.06, 371.56, -92.18, -43.08, 371.56, -92.18, -59.1, 371.56, -92.18, -77.12, 371.56, -92.18, -93.14, 371.56, -92.18, -111.16, 371.56, -92.18, -127.18, 371.56, -92.18, -145.21, 371.56, -92.18, -161.22, 371.56, -92.18, -179.25, 371.56, -92.18, -195.27, 371.56, -92.18, -213.29, 371.56, -92.18, -229.31, 371.56, -92.18, -247.33, 371.56, -92.18, -263.35, 371.56, -92.18, -281.37, 371.56, -92.18, -297.39, 371.56, -92.18, -315.41, 371.56, -92.18, -331.43, 371.56, -92.18, -349.45, 371.56, -92.18, -365.47, 371.56, -92.18, -383.5, 371.56, -92.18, -399.52, 371.56, -92.18, -417.54, 371.56, -92.18, -433.56, 371.56, -92.18, -451.58, 371.56, -92.18, -467.6, 371.56, -92.18, -485.62, 371.56, -92.18, -501.64, 500.43, -58.45, 501.85, 500.43, -58.45, 484.83, 500.43, -58.45, 467.81, 500.43, -58.45, 450.79, 500.43, -58.45, 433.77, 500.43, -58.45, 416.75, 500.43, -58.45, 399.73, 500.43, -58.45, 382.71, 500.43, -58.45, 365.69, 500.43, -58.45, 348.67, 500.43, -58.45, 331.65, 500.43, -58.45, 314.63, 500.43, -58.45, 297.61, 500.43, -58.45, 280.58, 500.43, -58.45, 263.56, 500.43, -58.45, 246.54, 500.43, -58.45, 229.52, 500.43, -58.45, 212.5, 500.43, -58.45, 195.48, 500.43, -58.45, 178.46, 500.43, -58.45, 161.44, 500.43, -58.45, 144.42, 500.43, -58.45, 127.4, 500.43, -58.45, 110.38, 500.43, -58.45, 93.36, 500.43, -58.45, 76.34, 500.43, -58.45, 59.32, 500.43, -58.45, 42.29, 500.43, -58.45, 25.27, 500.43, -58.45, 8.25, 500.43, -58.45, -8.77, 500.43, -58.45, -25.79, 500.43, -58.45, -42.81, 500.43, -58.45, -59.83, 500.43, -58.45, -76.85, 500.43, -58.45, -93.87, 500.43, -58.45, -110.89, 500.43, -58.45, -127.91, 500.43, -58.45, -144.93, 500.43, -58.45, -161.95, 500.43, -58.45, -178.98, 500.43, -58.45, -196.0, 500.43, -58.45, -213.02, 500.43, -58.45, -230.04, 500.43, -58.45, -247.06, 500.43, -58.45, -264.08, 500.43, -58.45, -281.1, 500.43, -58.45, -298.12, 500.43, -58.45, -315.14, 500.43, -58.45, -332.16, 500.43, -58.45, -349.18, 500.43, -58.45, -366.2, 500.43, -58.45, -383.22, 500.43, -58.45, -400.25, 500.43, -58.45, -417.27, 500.43, -58.45, -434.29, 500.43, -58.45, -451.31, 500.43, -58.45, -468.33, 500.43, -58.45, -485.35, 500.43, -58.45, -502.37, -570.9, -125.14, 499.6, -570.9, -125.14, 482.58, -570.9, -125.14, 465.56, -570.9, -125.14, 448.54, -570.9, -125.14, 431.52, -570.9, -125.14, 414.5, -570.9, -125.14, 397.48, -570.9, -125.14, 380.46, -570.9, -125.14, 363.44, -570.9, -125.14, 346.42, -570.9, -125.14, 329.4, -570.9, -125.14, 312.38, -570.9, -125.14, 295.36, -570.9, -125.14, 278.33, -570.9, -125.14, 261.31, -570.9, -125.14, 244.29, -570.9, -125.14, 227.27, -570.9, -125.14, 210.25, -570.9, -125.14, 193.23, -570.9, -125.14, 176.21, -570.9, -125.14, 159.19, -570.9, -125.14, 142.17, -570.9, -125.14, 125.15, -570.9, -125.14, 108.13, -570.9, -125.14, 91.11, -570.9, -125.14, 74.09, -570.9, -125.14, 57.07, -570.9, -125.14, 40.04, -570.9, -125.14, 23.02, -570.9, -125.14, 6.0, -570.9, -125.14, -11.02, -570.9, -125.14, -28.04, -570.9, -125.14, -45.06, -570.9, -125.14, -62.08, -570.9, -125.14, -79.1, -570.9, -125.14, -96.12, -570.9, -125.14, -113.14, -570.9, -125.14, -130.16, -570.9, -125.14, -147.18, -570.9, -125.14, -164.2, -570.9, -125.14, -181.23, -570.9, -125.14, -198.25, -570.9, -125.14, -215.27, -570.9, -125.14, -232.29, -570.9, -125.14, -249.31, -570.9, -125.14, -266.33, -570.9, -125.14, -283.35, -570.9, -125.14, -300.37, -570.9, -125.14, -317.39, -570.9, -125.14, -334.41, -570.9, -125.14, -351.43, -570.9, -125.14, -368.45, -570.9, -125.14, -385.47, -570.9, -125.14, -402.5, -570.9, -125.14, -419.52, -570.9, -125.14, -436.54, -570.9, -125.14, -453.56, -570.9, -125.14, -470.58, -570.9, -125.14, -487.6, -570.9, -125.14, -504.62, -447.74, -113.13, 500.67, -447.74, -113.13, 483.65, -447.74, -113.13, 466.63, -447.74, -113.13, 449.61, -447.74, -113.13, 432.59, -447.74, -113.13, 415.57, -447.74, -113.13, 398.55, -447.74, -113.13, 381.53, -447.74, -113.13, 364.51, -447.74, -113.13, 347.49, -447.74, -113.13, 330.47, -447.74, -113.13, 313.45, -447.74, -113.13, 296.43, -447.74, -113.13, 279.4, -447.74, -113.13, 262.38, -447.74, -113.13, 245.36, -447.74, -113.13, 228.34, -447.74, -113.13, 211.32, -447.74, -113.13, 194.3, -447.74, -113.13, 177.28, -447.74, -113.13, 160.26, -447.74, -113.13, 143.24, -447.74, -113.13, 126.22, -447.74, -113.13, 109.2, -447.74, -113.13, 92.18, -447.74, -113.13, 75.16, -447.74, -113.13, 58.14, -447.74, -113.13, 41.11, -447.74, -113.13, 24.09, -447.74, -113.13, 7.07, -447.74, -113.13, -9.95, -447.74, -113.13, -26.97, -447.74, -113.13, -43.99, -447.74, -113.13, -61.01, -447.74, -113.13, -78.03, -447.74, -113.13, -95.05, -447.74, -113.13, -112.07, -447.74, -113.13, -129.09, -447.74, -113.13, -146.11, -447.74, -113.13, -163.13, -447.74, -113.13, -180.16, -447.74, -113.13, -197.18, -447.74, -113.13, -214.2, -447.74, -113.13, -231.22, -447.74, -113.13, -248.24, -447.74, -113.13, -265.26, -447.74, -113.13, -282.28, -447.74, -113.13, -299.3, -447.74, -113.13, -316.32, -447.74, -113.13, -333.34, -447.74, -113.13, -350.36, -447.74, -113.13, -367.38, -447.74, -113.13, -384.4, -447.74, -113.13, -401.43, -447.74, -113.13, -418.45, -447.74, -113.13, -435.47, -447.74, -113.13, -452.49, -447.74, -113.13, -469.51, -447.74, -113.13, -486.53, -447.74, -113.13, -503.55, -324.39, -93.43, 500.13, -324.39, -93.43, 483.11, -324.39, -93.43, 466.09, -324.39, -93.43, 449.07, -324.39, -93.43, 432.05, -324.39, -93.43, 415.03, -324.39, -93.43, 398.01, -324.39, -93.43, 380.99, -324.39, -93.43, 363.97, -324.39, -93.43, 346.95, -324.39, -93.43, 329.93, -324.39, -93.43, 312.91, -324.39, -93.43, 295.89, -324.39, -93.43, 278.86, -324.39, -93.43, 261.84, -324.39, -93.43, 244.82, -324.39, -93.43, 227.8, -324.39, -93.43, 210.78, -324.39, -93.43, 193.76, -324.39, -93.43, 176.74, -324.39, -93.43, 159.72, -324.39, -93.43, 142.7, -324.39, -93.43, 125.68, -324.39, -93.43, 108.66, -324.39, -93.43, 91.64, -324.39, -93.43, 74.62, -324.39, -93.43, 57.6, -324.39, -93.43, 40.57, -324.39, -93.43, 23.55, -324.39, -93.43, 6.53, -324.39, -93.43, -10.49, -324.39, -93.43, -27.51, -324.39, -93.43, -44.53, -324.39, -93.43, -61.55, -324.39, -93.43, -78.57, -324.39, -93.43, -95.59, -324.39, -93.43, -112.61, -324.39, -93.43, -129.63, -324.39, -93.43, -146.65, -324.39, -93.43, -163.67, -324.39, -93.43, -180.7, -324.39, -93.43, -197.72, -324.39, -93.43, -214.74, -324.39, -93.43, -231.76, -324.39, -93.43, -248.78, -324.39, -93.43, -265.8, -324.39, -93.43, -282.82, -324.39, -93.43, -299.84, -324.39, -93.43, -316.86, -324.39, -93.43, -333.88, -324.39, -93.43, -350.9, -324.39, -93.43, -367.92, -324.39, -93.43, -384.94, -324.39, -93.43, -401.97, -324.39, -93.43, -418.99, -324.39, -93.43, -436.01, -324.39, -93.43, -453.03, -324.39, -93.43, -470.05, -324.39, -93.43, -487.07, -324.39, -93.43, -504.09, -200.55, -74.03, 523.42, -200.55, -74.03, 506.4, -200.55, -74.03, 489.38, -200.55, -74.03, 472.36, -200.55, -74.03, 455.34, -200.55, -74.03, 438.32, -200.55, -74.03, 421.3, -200.55, -74.03, 404.28, -200.55, -74.03, 387.26, -200.55, -74.03, 370.24, -200.55, -74.03, 353.22, -200.55, -74.03, 336.2, -200.55, -74.03, 319.18, -200.55, -74.03, 302.15, -200.55, -74.03, 285.13, -200.55, -74.03, 268.11, -200.55, -74.03, 251.09, -200.55, -74.03, 234.07, -200.55, -74.03, 217.05, -200.55, -74.03, 200.03, -200.55, -74.03, 183.01, -200.55, -74.03, 165.99, -200.55, -74.03, 148.97, -200.55, -74.03, 131.95, -200.55, -74.03, 114.93, -200.55, -74.03, 97.91, -200.55, -74.03, 80.89, -200.55, -74.03, 63.86, -200.55, -74.03, 46.84, -200.55, -74.03, 29.82, -200.55, -74.03, 12.8, -200.55, -74.03, -4.22, -200.55, -74.03, -21.24, -200.55, -74.03, -38.26, -200.55, -74.03, -55.28, -200.55, -74.03, -72.3, -200.55, -74.03, -89.32, -200.55, -74.03, -106.34, -200.55, -74.03, -123.36, -200.55, -74.03, -140.38, -200.55, -74.03, -157.41, -200.55, -74.03, -174.43, -200.55, -74.03, -191.45, -200.55, -74.03, -208.47, -200.55, -74.03, -225.49, -200.55, -74.03, -242.51, -200.55, -74.03, -259.53, -200.55, -74.03, -276.55, -200.55, -74.03, -293.57, -200.55, -74.03, -310.59, -200.55, -74.03, -327.61, -200.55, -74.03, -344.63, -200.55, -74.03, -361.65, -200.55, -74.03, -378.68, -200.55, -74.03, -395.7, -200.55, -74.03, -412.72, -200.55, -74.03, -429.74, -200.55, -74.03, -446.76, -200.55, -74.03, -463.78, -200.55, -74.03, -480.8, -77.8, -54.33, 502.7, -77.8, -54.33, 485.68, -77.8, -54.33, 468.66, -77.8, -54.33, 451.64, -77.8, -54.33, 434.62, -77.8, -54.33, 417.6, -77.8, -54.33, 400.58, -77.8, -54.33, 383.56, -77.8, -54.33, 366.54, -77.8, -54.33, 349.52, -77.8, -54.33, 332.5, -77.8, -54.33, 315.48, -77.8, -54.33, 298.46, -77.8, -54.33, 281.43, -77.8, -54.33, 264.41, -77.8, -54.33, 247.39, -77.8, -54.33, 230.37, -77.8, -54.33, 213.35, -77.8, -54.33, 196.33, -77.8, -54.33, 179.31, -77.8, -54.33, 162.29, -77.8, -54.33, 145.27, -77.8, -54.33, 128.25, -77.8, -54.33, 111.23, -77.8, -54.33, 94.21, -77.8, -54.33, 77.19, -77.8, -54.33, 60.17, -77.8, -54.33, 43.14, -77.8, -54.33, 26.12, -77.8, -54.33, 9.1, -77.8, -54.33, -7.92, -77.8, -54.33, -24.94, -77.8, -54.33, -41.96, -77.8, -54.33, -58.98, -77.8, -54.33, -76.0, -77.8, -54.33, -93.02, -77.8, -54.33, -110.04, -77.8, -54.33, -127.06, -77.8, -54.33, -144.08, -77.8, -54.33, -161.1, -77.8, -54.33, -178.13, -77.8, -54.33, -195.15, -77.8, -54.33, -212.17, -77.8, -54.33, -229.19, -77.8, -54.33, -246.21, -77.8, -54.33, -263.23, -77.8, -54.33, -280.25, -77.8, -54.33, -297.27, -77.8, -54.33, -314.29, -77.8, -54.33, -331.31, -77.8, -54.33, -348.33, -77.8, -54.33, -365.35, -77.8, -54.33, -382.37, -77.8, -54.33, -399.4, -77.8, -54.33, -416.42, -77.8, -54.33, -433.44, -77.8, -54.33, -450.46, -77.8, -54.33, -467.48, -77.8, -54.33, -484.5, -77.8, -54.33, -501.52, 46.29, -34.88, 500.97, 46.29, -34.88, 483.95, 46.29, -34.88, 466.93, 46.29, -34.88, 449.91, 46.29, -34.88, 432.89, 46.29, -34.88, 415.87, 46.29, -34.88, 398.85, 46.29, -34.88, 381.83, 46.29, -34.88, 364.81, 46.29, -34.88, 347.79, 46.29, -34.88, 330.77, 46.29, -34.88, 313.75, 46.29, -34.88, 296.73, 46.29, -34.88, 279.7, 46.29, -34.88, 262.68, 46.29, -34.88, 245.66, 46.29, -34.88, 228.64, 46.29, -34.88, 211.62, 46.29, -34.88, 194.6, 46.29, -34.88, 177.58, 46.29, -34.88, 160.56, 46.29, -34.88, 143.54, 46.29, -34.88, 126.52, 46.29, -34.88, 109.5, 46.29, -34.88, 92.48, 46.29, -34.88, 75.46, 46.29, -34.88, 58.44, 46.29, -34.88, 41.41, 46.29, -34.88, 24.39, 46.29, -34.88, 7.37, 46.29, -34.88, -9.65, 46.29, -34.88, -26.67, 46.29, -34.88, -43.69, 46.29, -34.88, -60.71, 46.29, -34.88, -77.73, 46.29, -34.88, -94.75, 46.29, -34.88, -111.77, 46.29, -34.88, -128.79, 46.29, -34.88, -145.81, 46.29, -34.88, -162.83, 46.29, -34.88, -179.86, 46.29, -34.88, -196.88, 46.29, -34.88, -213.9, 46.29, -34.88, -230.92, 46.29, -34.88, -247.94, 46.29, -34.88, -264.96, 46.29, -34.88, -281.98, 46.29, -34.88, -299.0, 46.29, -34.88, -316.02, 46.29, -34.88, -333.04, 46.29, -34.88, -350.06, 46.29, -34.88, -367.08, 46.29, -34.88, -384.1, 46.29, -34.88, -401.13, 46.29, -34.88, -418.15, 46.29, -34.88, -435.17, 46.29, -34.88, -452.19, 46.29, -34.88, -469.21, 46.29, -34.88, -486.23, 46.29, -34.88, -503.25, 194.34, -30.92, 504.09, 194.34, -30.92, 487.07, 194.34, -30.92, 470.05, 194.34, -30.92, 453.03, 194.34, -30.92, 436.01, 194.34, -30.92, 418.99, 194.34, -30.92, 401.97, 194.34, -30.92, 384.95, 194.34, -30.92, 367.93, 194.34, -30.92, 350.91, 194.34, -30.92, 333.89, 194.34, -30.92, 316.87, 194.34, -30.92, 299.85, 194.34, -30.92, 282.82, 194.34, -30.92, 265.8, 194.34, -30.92, 248.78, 194.34, -30.92, 231.76, 194.34, -30.92, 214.74, 194.34, -30.92, 197.72, 194.34, -30.92, 180.7, 194.34, -30.92, 163.68, 194.34, -30.92, 146.66, 194.34, -30.92, 129.64, 194.34, -30.92, 112.62, 194.34, -30.92, 95.6, 194.34, -30.92, 78.58, 194.34, -30.92, 61.56, 194.34, -30.92, 44.53, 194.34, -30.92, 27.51, 194.34, -30.92, 10.49, 194.34, -30.92, -6.53, 194.34, -30.92, -23.55, 194.34, -30.92, -40.57, 194.34, -30.92, -57.59, 194.34, -30.92, -74.61, 194.34, -30.92, -91.63, 194.34, -30.92, -108.65, 194.34, -30.92, -125.67, 194.34, -30.92, -142.69, 194.34, -30.92, -159.71, 194.34, -30.92, -176.74, 194.34, -30.92, -193.76, 194.34, -30.92, -210.78, 194.34, -30.92, -227.8, 194.34, -30.92, -244.82, 194.34, -30.92, -261.84, 194.34, -30.92, -278.86, 194.34, -30.92, -295.88, 194.34, -30.92, -312.9, 194.34, -30.92, -329.92, 194.34, -30.92, -346.94, 194.34, -30.92, -363.96, 194.34, -30.92, -380.98, 194.34, -30.92, -398.01, 194.34, -30.92, -415.03, 194.34, -30.92, -432.05, 194.34, -30.92, -449.07, 194.34, -30.92, -466.09, 194.34, -30.92, -483.11, 194.34, -30.92, -500.13, 292.9, 5.2, 491.4, 292.9, 5.2, 474.38, 292.9, 5.2, 457.36, 292.9, 5.2, 440.34, 292.9, 5.2, 423.32, 292.9, 5.2, 406.3, 292.9, 5.2, 389.28, 292.9, 5.2, 372.26, 292.9, 5.2, 355.24, 292.9, 5.2, 338.22, 292.9, 5.2, 321.2, 292.9, 5.2, 304.18, 292.9, 5.2, 287.16, 292.9, 5.2, 270.13, 292.9, 5.2, 253.11, 292.9, 5.2, 236.09, 292.9, 5.2, 219.07, 292.9, 5.2, 202.05, 292.9, 5.2, 185.03, 292.9, 5.2, 168.01, 292.9, 5.2, 150.99, 292.9, 5.2, 133.97, 292.9, 5.2, 116.95, 292.9, 5.2, 99.93, 292.9, 5.2, 82.91, 292.9, 5.2, 65.89, 292.9, 5.2, 48.87, 292.9, 5.2, 31.84, 292.9, 5.2, 14.82, 292.9, 5.2, -2.2, 292.9, 5.2, -19.22, 292.9, 5.2, -36.24, 292.9, 5.2, -53.26, 292.9, 5.2, -70.28, 292.9, 5.2, -87.3, 292.9, 5.2, -104.32, 292.9, 5.2, -121.34, 292.9, 5.2, -138.36, 292.9, 5.2, -155.38, 292.9, 5.2, -172.4, 292.9, 5.2, -189.43, 292.9, 5.2, -206.45, 292.9, 5.2, -223.47, 292.9, 5.2, -240.49, 292.9, 5.2, -257.51, 292.9, 5.2, -274.53, 292.9, 5.2, -291.55, 292.9, 5.2, -308.57, 292.9, 5.2, -325.59, 292.9, 5.2, -342.61, 292.9, 5.2, -359.63, 292.9, 5.2, -376.65, 292.9, 5.2, -393.67, 292.9, 5.2, -410.7, 292.9, 5.2, -427.72, 292.9, 5.2, -444.74, 292.9, 5.2, -461.76, 292.9, 5.2, -478.78, 292.9, 5.2, -495.8, 292.9, 5.2, -512.82, 411.81, 13.0, 501.73, 411.81, 13.0, 484.71, 411.81, 13.0, 467.69, 411.81, 13.0, 450.67, 411.81, 13.0, 433.65, 411.81, 13.0, 416.63, 411.81, 13.0, 399.61, 411.81, 13.0, 382.59, 411.81, 13.0, 365.57, 411.81, 13.0, 348.55, 411.81, 13.0, 331.53, 411.81, 13.0, 314.51, 411.81, 13.0, 297.49, 411.81, 13.0, 280.46, 411.81, 13.0, 263.44, 411.81, 13.0, 246.42, 411.81, 13.0, 229.4, 411.81, 13.0, 212.38, 411.81, 13.0, 195.36, 411.81, 13.0, 178.34, 411.81, 13.0, 161.32, 411.81, 13.0, 144.3, 411.81, 13.0, 127.28, 411.81, 13.0, 110.26, 411.81, 13.0, 93.24, 411.81, 13.0, 76.22, 411.81, 13.0, 59.2, 411.81, 13.0, 42.17, 411.81, 13.0, 25.15, 411.81, 13.0, 8.13, 411.81, 13.0, -8.89, 411.81, 13.0, -25.91, 411.81, 13.0, -42.93, 411.81, 13.0, -59.95, 411.81, 13.0, -76.97, 411.81, 13.0, -93.99, 411.81, 13.0, -111.01, 411.81, 13.0, -128.03, 411.81, 13.0, -145.05, 411.81, 13.0, -162.07, 411.81, 13.0, -179.1, 411.81, 13.0, -196.12, 411.81, 13.0, -213.14, 411.81, 13.0, -230.16, 411.81, 13.0, -247.18, 411.81, 13.0, -264.2, 411.81, 13.0, -281.22, 411.81, 13.0, -298.24, 411.81, 13.0, -315.26, 411.81, 13.0, -332.28, 411.81, 13.0, -349.3, 411.81, 13.0, -366.32, 411.81, 13.0, -383.34, 411.81, 13.0, -400.37, 411.81, 13.0, -417.39, 411.81, 13.0, -434.41, 411.81, 13.0, -451.43, 411.81, 13.0, -468.45, 411.81, 13.0, -485.47, 411.81, 13.0, -502.49, 544.07, 55.89, 502.79, 544.07, 55.89, 485.76, 544.07, 55.89, 468.74, 544.07, 55.89, 451.72, 544.07, 55.89, 434.7, 544.07, 55.89, 417.68, 544.07, 55.89, 400.66, 544.07, 55.89, 383.64, 544.07, 55.89, 366.62, 544.07, 55.89, 349.6, 544.07, 55.89, 332.58, 544.07, 55.89, 315.56, 544.07, 55.89, 298.54, 544.07, 55.89, 281.52, 544.07, 55.89, 264.5, 544.07, 55.89, 247.47, 544.07, 55.89, 230.45, 544.07, 55.89, 213.43, 544.07, 55.89, 196.41, 544.07, 55.89, 179.39, 544.07, 55.89, 162.37, 544.07, 55.89, 145.35, 544.07, 55.89, 128.33, 544.07, 55.89, 111.31, 544.07, 55.89, 94.29, 544.07, 55.89, 77.27, 544.07, 55.89, 60.25, 544.07, 55.89, 43.23, 544.07, 55.89, 26.2, 544.07, 55.89, 9.18, 544.07, 55.89, -7.84, 544.07, 55.89, -24.86, 544.07, 55.89, -41.88, 544.07, 55.89, -58.9, 544.07, 55.89, -75.92, 544.07, 55.89, -92.94, 544.07, 55.89, -109.96, 544.07, 55.89, -126.98, 544.07, 55.89, -144.0, 544.07, 55.89, -161.02, 544.07, 55.89, -178.04, 544.07, 55.89, -195.07, 544.07, 55.89, -212.09, 544.07, 55.89, -229.11, 544.07, 55.89, -246.13, 544.07, 55.89, -263.15, 544.07, 55.89, -280.17, 544.07, 55.89, -297.19, 544.07, 55.89, -314.21, 544.07, 55.89, -331.23, 544.07, 55.89, -348.25, 544.07, 55.89, -365.27, 544.07, 55.89, -382.29, 544.07, 55.89, -399.31, 544.07, 55.89, -416.34, 544.07, 55.89, -433.36, 544.07, 55.89, -450.38, 544.07, 55.89, -467.4, 544.07, 55.89, -484.42, 544.07, 55.89, -502.14, -526.63, -15.6, 502.67, -526.63, -15.6, 485.64, -526.63, -15.6, 468.62, -526.63, -15.6, 451.6, -526.63, -15.6, 434.58, -526.63, -15.6, 417.56, -526.63, -15.6, 400.54, -526.63, -15.6, 383.52, -526.63, -15.6, 366.5, -526.63, -15.6, 349.48, -526.63, -15.6, 332.46, -526.63, -15.6, 315.44, -526.63, -15.6, 298.42, -526.63, -15.6, 281.4, -526.63, -15.6, 264.37, -526.63, -15.6, 247.35, -526.63, -15.6, 230.33, -526.63, -15.6, 213.31, -526.63, -15.6, 196.29, -526.63, -15.6, 179.27, -526.63, -15.6, 162.25, -526.63, -15.6, 145.23, -526.63, -15.6, 128.21, -526.63, -15.6, 111.19, -526.63, -15.6, 94.17, -526.63, -15.6, 77.15, -526.63, -15.6, 60.13, -526.63, -15.6, 43.1, -526.63, -15.6, 26.08, -526.63, -15.6, 9.06, -526.63, -15.6, -7.96, -526.63, -15.6, -24.98, -526.63, -15.6, -42.0, -526.63, -15.6, -59.02, -526.63, -15.6, -76.04, -526.63, -15.6, -93.06, -526.63, -15.6, -110.08, -526.63, -15.6, -127.1, -526.63, -15.6, -144.12, -526.63, -15.6, -161.14, -526.63, -15.6, -178.17, -526.63, -15.6, -195.19, -526.63, -15.6, -212.21, -526.63, -15.6, -229.23, -526.63, -15.6, -246.25, -526.63, -15.6, -263.27, -526.63, -15.6, -280.29, -526.63, -15.6, -297.31, -526.63, -15.6, -314.33, -526.63, -15.6, -331.35, -526.63, -15.6, -348.37, -526.63, -15.6, -365.39, -526.63, -15.6, -382.41, -526.63, -15.6, -399.43, -526.63, -15.6, -416.46, -526.63, -15.6, -433.48, -526.63, -15.6, -450.5, -526.63, -15.6, -467.52, -526.63, -15.6, -484.54, -526.63, -15.6, -502.01, -403.14, 3.49, 501.8, -403.14, 3.49, 484.78, -403.14, 3.49, 467.76, -403.14, 3.49, 450.74, -403.14, 3.49, 433.72, -403.14, 3.49, 416.7, -403.14, 3.49, 399.68, -403.14, 3.49, 382.66, -403.14, 3.49, 365.64, -403.14, 3.49, 348.62, -403.14, 3.49, 331.6, -403.14, 3.49, 314.58, -403.14, 3.49, 297.56, -403.14, 3.49, 280.53, -403.14, 3.49, 263.51, -403.14, 3.49, 246.49, -403.14, 3.49, 229.47, -403.14, 3.49, 212.45, -403.14, 3.49, 195.43, -403.14, 3.49, 178.41, -403.14, 3.49, 161.39, -403.14, 3.49, 144.37, -403.14, 3.49, 127.35, -403.14, 3.49, 110.33, -403.14, 3.49, 93.31, -403.14, 3.49, 76.29, -403.14, 3.49, 59.27, -403.14, 3.49, 42.24, -403.14, 3.49, 25.22, -403.14, 3.49, 8.2, -403.14, 3.49, -8.82, -403.14, 3.49, -25.84, -403.14, 3.49, -42.86, -403.14, 3.49, -59.88, -403.14, 3.49, -76.9, -403.14, 3.49, -93.92, -403.14, 3.49, -110.94, -403.14, 3.49, -127.96, -403.14, 3.49, -144.98, -403.14, 3.49, -162.0, -403.14, 3.49, -179.03, -403.14, 3.49, -196.05, -403.14, 3.49, -213.07, -403.14, 3.49, -230.09, -403.14, 3.49, -247.11, -403.14, 3.49, -264.13, -403.14, 3.49, -281.15, -403.14, 3.49, -298.17, -403.14, 3.49, -315.19, -403.14, 3.49, -332.21, -403.14, 3.49, -349.23, -403.14, 3.49, -366.25, -403.14, 3.49, -383.27, -403.14, 3.49, -400.3, -403.14, 3.49, -417.32, -403.14, 3.49, -434.34, -403.14, 3.49, -451.36, -403.14, 3.49, -468.38, -403.14, 3.49, -485.4, -403.14, 3.49, -502.42, -279.53, 23.17, 502.61, -279.53, 23.17, 485.59, -279.53, 23.17, 468.57, -279.53, 23.17, 451.54, -279.53, 23.17, 434.52, -279.53, 23.17, 417.5, -279.53, 23.17, 400.48, -279.53, 23.17, 383.46, -279.53, 23.17, 366.44, -279.53, 23.17, 349.42, -279.53, 23.17, 332.4, -279.53, 23.17, 315.38, -279.53, 23.17, 298.36, -279.53, 23.17, 281.34, -279.53, 23.17, 264.32, -279.53, 23.17, 247.3, -279.53, 23.17, 230.27, -279.53, 23.17, 213.25, -279.53, 23.17, 196.23, -279.53, 23.17, 179.21, -279.53, 23.17, 162.19, -279.53, 23.17, 145.17, -279.53, 23.17, 128.15, -279.53, 23.17, 111.13, -279.53, 23.17, 94.11, -279.53, 23.17, 77.09, -279.53, 23.17, 60.07, -279.53, 23.17, 43.05, -279.53, 23.17, 26.03, -279.53, 23.17, 9.0, -279.53, 23.17, -8.02, -279.53, 23.17, -25.04, -279.53, 23.17, -42.06, -279.53, 23.17, -59.08, -279.53, 23.17, -76.1, -279.53, 23.17, -93.12, -279.53, 23.17, -110.14, -279.53, 23.17, -127.16, -279.53, 23.17, -144.18, -279.53, 23.17, -161.2, -279.53, 23.17, -178.22, -279.53, 23.17, -195.24, -279.53, 23.17, -212.26, -279.53, 23.17, -229.29, -279.53, 23.17, -246.31, -279.53, 23.17, -263.33, -279.53, 23.17, -280.35, -279.53, 23.17, -297.37, -279.53, 23.17, -314.39, -279.53, 23.17, -331.41, -279.53, 23.17, -348.43, -279.53, 23.17, -365.45, -279.53, 23.17, -382.47, -279.53, 23.17, -399.49, -279.53, 23.17, -416.51, -279.53, 23.17, -433.53, -279.53, 23.17, -450.56, -279.53, 23.17, -467.58, -279.53, 23.17, -486.4, -279.53, 23.17, -503.42, -156.23, 43.37, 500.84, -156.23, 43.37, 483.81, -156.23, 43.37, 466.79, -156.23, 43.37, 449.77, -156.23, 43.37, 432.75, -156.23, 43.37, 415.73, -156.23, 43.37, 398.71, -156.23, 43.37, 381.69, -156.23, 43.37, 364.67, -156.23, 43.37, 347.65, -156.23, 43.37, 330.63, -156.23, 43.37, 313.61, -156.23, 43.37, 296.59, -156.23, 43.37, 279.57, -156.23, 43.37, 262.54, -156.23, 43.37, 245.52, -156.23, 43.37, 228.5, -156.23, 43.37, 211.48, -156.23, 43.37, 194.46, -156.23, 43.37, 177.44, -156.23, 43.37, 160.42, -156.23, 43.37, 143.4, -156.23, 43.37, 126.38, -156.23, 43.37, 109.36, -156.23, 43.37, 92.34, -156.23, 43.37, 75.32, -156.23, 43.37, 58.3, -156.23, 43.37, 41.27, -156.23, 43.37, 24.25, -156.23, 43.37, 7.23, -156.23, 43.37, -9.79, -156.23, 43.37, -26.81, -156.23, 43.37, -43.83, -156.23, 43.37, -60.85, -156.23, 43.37, -77.87, -156.23, 43.37, -94.89, -156.23, 43.37, -111.91, -156.23, 43.37, -128.93, -156.23, 43.37, -145.95, -156.23, 43.37, -162.97, -156.23, 43.37, -179.99, -156.23, 43.37, -197.02, -156.23, 43.37, -214.04, -156.23, 43.37, -231.06, -156.23, 43.37, -248.08, -156.23, 43.37, -265.1, -156.23, 43.37, -282.12, -156.23, 43.37, -299.14, -156.23, 43.37, -316.16, -156.23, 43.37, -333.18, -156.23, 43.37, -350.2, -156.23, 43.37, -367.22, -156.23, 43.37, -384.24, -156.23, 43.37, -401.26, -156.23, 43.37, -418.29, -156.23, 43.37, -435.31, -156.23, 43.37, -452.33, -156.23, 43.37, -469.35, -156.23, 43.37, -486.37, -156.23, 43.37, -503.89, -32.96, 62.44, 495.81, -32.96, 62.44, 478.79, -32.96, 62.44, 461.77, -32.96, 62.44, 444.75, -32.96, 62.44, 427.73, -32.96, 62.44, 410.71, -32.96, 62.44, 393.69, -32.96, 62.44, 376.67, -32.96, 62.44, 359.65, -32.96, 62.44, 342.63, -32.96, 62.44, 325.61, -32.96, 62.44, 308.59, -32.96, 62.44, 291.57, -32.96, 62.44, 274.54, -32.96, 62.44, 257.52, -32.96, 62.44, 240.5, -32.96, 62.44, 223.48, -32.96, 62.44, 206.46, -32.96, 62.44, 189.44, -32.96, 62.44, 172.42, -32.96, 62.44, 155.4, -32.96, 62.44, 138.38, -32.96, 62.44, 121.36, -32.96, 62.44, 104.34, -32.96, 62.44, 87.32, -32.96, 62.44, 70.3, -32.96, 62.44, 53.28, -32.96, 62.44, 36.25, -32.96, 62.44, 19.23, -32.96, 62.44, 2.21, -32.96, 62.44, -14.81, -32.96, 62.44, -31.83, -32.96, 62.44, -48.85, -32.96, 62.44, -65.87, -32.96, 62.44, -82.89, -32.96, 62.44, -99.91, -32.96, 62.44, -116.93, -32.96, 62.44, -133.95, -32.96, 62.44, -150.97, -32.96, 62.44, -167.99, -32.96, 62.44, -185.02, -32.96, 62.44, -202.04, -32.96, 62.44, -219.06, -32.96, 62.44, -236.08, -32.96, 62.44, -253.1, -32.96, 62.44, -270.12, -32.96, 62.44, -287.14, -32.96, 62.44, -304.16, -32.96, 62.44, -321.18, -32.96, 62.44, -338.2, -32.96, 62.44, -355.22, -32.96, 62.44, -372.24, -32.96, 62.44, -389.26, -32.96, 62.44, -406.29, -32.96, 62.44, -423.31, -32.96, 62.44, -440.33, -32.96, 62.44, -457.35, -32.96, 62.44, -474.37, -32.96, 62.44, -491.39, -32.96, 62.44, -508.41, 90.49, 82.35, 501.66, 90.49, 82.35, 484.64, 90.49, 82.35, 467.62, 90.49, 82.35, 450.6, 90.49, 82.35, 433.58, 90.49, 82.35, 416.56, 90.49, 82.35, 399.54, 90.49, 82.35, 382.52, 90.49, 82.35, 365.5, 90.49, 82.35, 348.48, 90.49, 82.35, 331.46, 90.49, 82.35, 314.44, 90.49, 82.35, 297.42, 90.49, 82.35, 280.39, 90.49, 82.35, 263.37, 90.49, 82.35, 246.35, 90.49, 82.35, 229.33, 90.49, 82.35, 212.31, 90.49, 82.35, 195.29, 90.49, 82.35, 178.27, 90.49, 82.35, 161.25, 90.49, 82.35, 144.23, 90.49, 82.35, 127.21, 90.49, 82.35, 110.19, 90.49, 82.35, 93.17, 90.49, 82.35, 76.15, 90.49, 82.35, 59.13, 90.49, 82.35, 42.1, 90.49, 82.35, 25.08, 90.49, 82.35, 8.06, 90.49, 82.35, -8.96, 90.49, 82.35, -25.98, 90.49, 82.35, -43.0, 90.49, 82.35, -60.02, 90.49, 82.35, -77.04, 90.49, 82.35, -94.06, 90.49, 82.35, -111.08, 90.49, 82.35, -128.1, 90.49, 82.35, -145.12, 90.49, 82.35, -162.14, 90.49, 82.35, -179.17, 90.49, 82.35, -196.19, 90.49, 82.35, -213.21, 90.49, 82.35, -230.23, 90.49, 82.35, -247.25, 90.49, 82.35, -264.27, 90.49, 82.35, -281.29, 90.49, 82.35, -298.31, 90.49, 82.35, -315.33, 90.49, 82.35, -332.35, 90.49, 82.35, -349.37, 90.49, 82.35, -366.39, 90.49, 82.35, -383.41, 90.49, 82.35, -400.44, 90.49, 82.35, -417.46, 90.49, 82.35, -434.48, 90.49, 82.35, -451.5, 90.49, 82.35, -468.52, 90.49, 82.35, -485.54, 90.49, 82.35, -502.56, 195.03, 125.59, 501.83, 195.03, 125.59, 484.81, 195.03, 125.59, 467.79, 195.03, 125.59, 450.77, 195.03, 125.59, 433.75, 195.03, 125.59, 416.73, 195.03, 125.59, 399.71, 195.03, 125.59, 382.69, 195.03, 125.59, 365.67, 195.03, 125.59, 348.65, 195.03, 125.59, 331.63, 195.03, 125.59, 314.61, 195.03, 125.59, 297.59, 195.03, 125.59, 280.56, 195.03, 125.59, 263.54, 195.03, 125.59, 246.52, 195.03, 125.59, 229.5, 195.03, 125.59, 212.48, 195.03, 125.59, 195.46, 195.03, 125.59, 178.44, 195.03, 125.59, 161.42, 195.03, 125.59, 144.4, 195.03, 125.59, 127.38, 195.03, 125.59, 110.36, 195.03, 125.59, 93.34, 195.03, 125.59, 76.32, 195.03, 125.59, 59.3, 195.03, 125.59, 42.27, 195.03, 125.59, 25.25, 195.03, 125.59, 8.23, 195.03, 125.59, -8.79, 195.03, 125.59, -25.81, 195.03, 125.59, -42.83, 195.03, 125.59, -59.85, 195.03, 125.59, -76.87, 195.03, 125.59, -93.89, 195.03, 125.59, -110.91, 195.03, 125.59, -127.93, 195.03, 125.59, -144.95, 195.03, 125.59, -161.97, 195.03, 125.59, -179.0, 195.03, 125.59, -196.02, 195.03, 125.59, -213.04, 195.03, 125.59, -230.06, 195.03, 125.59, -247.08, 195.03, 125.59, -264.1, 195.03, 125.59, -281.12, 195.03, 125.59, -298.14, 195.03, 125.59, -315.16, 195.03, 125.59, -332.18, 195.03, 125.59, -349.2, 195.03, 125.59, -366.22, 195.03, 125.59, -383.24, 195.03, 125.59, -400.27, 195.03, 125.59, -417.29, 195.03, 125.59, -434.31, 195.03, 125.59, -451.33, 195.03, 125.59, -468.35, 195.03, 125.59, -485.37, 195.03, 125.59, -502.39, 330.03, 127.2, 500.87, 330.03, 127.2, 483.85, 330.03, 127.2, 466.83, 330.03, 127.2, 449.8, 330.03, 127.2, 432.78, 330.03, 127.2, 415.76, 330.03, 127.2, 398.74, 330.03, 127.2, 381.72, 330.03, 127.2, 364.7, 330.03, 127.2, 347.68, 330.03, 127.2, 330.66, 330.03, 127.2, 313.64, 330.03, 127.2, 296.62, 330.03, 127.2, 279.6, 330.03, 127.2, 262.58, 330.03, 127.2, 245.56, 330.03, 127.2, 228.53, 330.03, 127.2, 211.51, 330.03, 127.2, 194.49, 330.03, 127.2, 177.47, 330.03, 127.2, 160.45, 330.03, 127.2, 143.43, 330.03, 127.2, 126.41, 330.03, 127.2, 109.39, 330.03, 127.2, 92.37, 330.03, 127.2, 75.35, 330.03, 127.2, 58.33, 330.03, 127.2, 41.31, 330.03, 127.2, 24.29, 330.03, 127.2, 7.26, 330.03, 127.2, -9.76, 330.03, 127.2, -26.78, 330.03, 127.2, -43.8, 330.03, 127.2, -60.82, 330.03, 127.2, -77.84, 330.03, 127.2, -94.86, 330.03, 127.2, -111.88, 330.03, 127.2, -128.9, 330.03, 127.2, -145.92, 330.03, 127.2, -162.94, 330.03, 127.2, -179.96, 330.03, 127.2, -196.98, 330.03, 127.2, -214.01, 330.03, 127.2, -231.03, 330.03, 127.2, -248.05, 330.03, 127.2, -265.07, 330.03, 127.2, -282.09, 330.03, 127.2, -299.11, 330.03, 127.2, -316.13, 330.03, 127.2, -333.15, 330.03, 127.2, -350.17, 330.03, 127.2, -367.19, 330.03, 127.2, -384.21, 330.03, 127.2, -401.23, 330.03, 127.2, -418.25, 330.03, 127.2, -435.28, 330.03, 127.2, -452.3, 330.03, 127.2, -469.32, 330.03, 127.2, -486.34, 330.03, 127.2, -504.86, 472.05, 127.9, 504.27, 472.05, 127.9, 487.25, 472.05, 127.9, 470.23, 472.05, 127.9, 453.21, 472.05, 127.9, 436.19, 472.05, 127.9, 419.17, 472.05, 127.9, 402.15, 472.05, 127.9, 385.13, 472.05, 127.9, 368.11, 472.05, 127.9, 351.09, 472.05, 127.9, 334.07, 472.05, 127.9, 317.05, 472.05, 127.9, 300.03, 472.05, 127.9, 283.0, 472.05, 127.9, 265.98, 472.05, 127.9, 248.96, 472.05, 127.9, 231.94, 472.05, 127.9, 214.92, 472.05, 127.9, 197.9, 472.05, 127.9, 180.88, 472.05, 127.9, 163.86, 472.05, 127.9, 146.84, 472.05, 127.9, 129.82, 472.05, 127.9, 112.8, 472.05, 127.9, 95.78, 472.05, 127.9, 78.76, 472.05, 127.9, 61.74, 472.05, 127.9, 44.71, 472.05, 127.9, 27.69, 472.05, 127.9, 10.67, 472.05, 127.9, -6.35, 472.05, 127.9, -23.37, 472.05, 127.9, -40.39, 472.05, 127.9, -57.41, 472.05, 127.9, -74.43, 472.05, 127.9, -91.45, 472.05, 127.9, -108.47, 472.05, 127.9, -125.49, 472.05, 127.9, -142.51, 472.05, 127.9, -159.53, 472.05, 127.9, -176.56, 472.05, 127.9, -193.58, 472.05, 127.9, -210.6, 472.05, 127.9, -227.62, 472.05, 127.9, -244.64, 472.05, 127.9, -261.66, 472.05, 127.9, -278.68, 472.05, 127.9, -295.7, 472.05, 127.9, -312.72, 472.05, 127.9, -329.74, 472.05, 127.9, -346.76, 472.05, 127.9, -363.78, 472.05, 127.9, -380.8, 472.05, 127.9, -397.83, 472.05, 127.9, -414.85, 472.05, 127.9, -431.87, 472.05, 127.9, -448.89, 472.05, 127.9, -465.91, 472.05, 127.9, -482.93, 472.05, 127.9, -499.95, 576.37, 170.92, 494.04, 576.37, 170.92, 477.02, 576.37, 170.92, 460.0, 576.37, 170.92, 442.98, 576.37, 170.92, 425.96, 576.37, 170.92, 408.94, 576.37, 170.92, 391.92, 576.37, 170.92, 374.9, 576.37, 170.92, 357.88, 576.37, 170.92, 340.86, 576.37, 170.92, 323.84, 576.37, 170.92, 306.82, 576.37, 170.92, 289.8, 576.37, 170.92, 272.77, 576.37, 170.92, 255.75, 576.37, 170.92, 238.73, 576.37, 170.92, 221.71, 576.37, 170.92, 204.69, 576.37, 170.92, 187.67, 576.37, 170.92, 170.65, 576.37, 170.92, 153.63, 576.37, 170.92, 136.61, 576.37, 170.92, 119.59, 576.37, 170.92, 102.57, 576.37, 170.92, 85.55, 576.37, 170.92, 68.53, 576.37, 170.92, 51.51, 576.37, 170.92, 34.48, 576.37, 170.92, 17.46, 576.37, 170.92, 0.44, 576.37, 170.92, -16.58, 576.37, 170.92, -33.6, 576.37, 170.92, -50.62, 576.37, 170.92, -67.64, 576.37, 170.92, -84.66, 576.37, 170.92, -101.68, 576.37, 170.92, -118.7, 576.37, 170.92, -135.72, 576.37, 170.92, -152.74, 576.37, 170.92, -169.76, 576.37, 170.92, -186.79, 576.37, 170.92, -203.81, 576.37, 170.92, -220.83, 576.37, 170.92, -237.85, 576.37, 170.92, -254.87, 576.37, 170.92, -271.89, 576.37, 170.92, -288.91, 576.37, 170.92, -305.93, 576.37, 170.92, -322.95, 576.37, 170.92, -339.97, 576.37, 170.92, -356.99, 576.37, 170.92, -374.01, 576.37, 170.92, -391.03, 576.37, 170.92, -408.06, 576.37, 170.92, -425.08, 576.37, 170.92, -442.1, 576.37, 170.92, -459.12, 576.37, 170.92, -476.14, 576.37, 170.92, -493.16, 576.37, 170.92, -510.18, -481.6, 101.39, 502.05, -481.6, 101.39, 485.03, -481.6, 101.39, 468.01, -481.6, 101.39, 450.99, -481.6, 101.39, 433.97, -481.6, 101.39, 416.95, -481.6, 101.39, 399.93, -481.6, 101.39, 382.91, -481.6, 101.39, 365.89, -481.6, 101.39, 348.87, -481.6, 101.39, 331.85, -481.6, 101.39, 314.83, -481.6, 101.39, 297.81, -481.6, 101.39, 280.78, -481.6, 101.39, 263.76, -481.6, 101.39, 246.74, -481.6, 101.39, 229.72, -481.6, 101.39, 212.7, -481.6, 101.39, 195.68, -481.6, 101.39, 178.66, -481.6, 101.39, 161.64, -481.6, 101.39, 144.62, -481.6, 101.39, 127.6, -481.6, 101.39, 110.58, -481.6, 101.39, 93.56, -481.6, 101.39, 76.54, -481.6, 101.39, 59.51, -481.6, 101.39, 42.49, -481.6, 101.39, 25.47, -481.6, 101.39, 8.45, -481.6, 101.39, -8.57, -481.6, 101.39, -25.59, -481.6, 101.39, -42.61, -481.6, 101.39, -59.63, -481.6, 101.39, -76.65, -481.6, 101.39, -93.67, -481.6, 101.39, -110.69, -481.6, 101.39, -127.71, -481.6, 101.39, -144.73, -481.6, 101.39, -161.76, -481.6, 101.39, -178.78, -481.6, 101.39, -195.8, -481.6, 101.39, -212.82, -481.6, 101.39, -229.84, -481.6, 101.39, -246.86, -481.6, 101.39, -263.88, -481.6, 101.39, -280.9, -481.6, 101.39, -297.92, -481.6, 101.39, -314.94, -481.6, 101.39, -331.96, -481.6, 101.39, -348.98, -481.6, 101.39, -366.0, -481.6, 101.39, -383.02, -481.6, 101.39, -400.05, -481.6, 101.39, -417.07, -481.6, 101.39, -434.09, -481.6, 101.39, -451.11, -481.6, 101.39, -468.13, -481.6, 101.39, -484.92, -481.6, 101.39, -501.94, -358.44, 120.56, 498.06, -358.44, 120.56, 481.04, -358.44, 120.56, 464.02, -358.44, 120.56, 447.0, -358.44, 120.56, 429.98, -358.44, 120.56, 412.96, -358.44, 120.56, 395.94, -358.44, 120.56, 378.92, -358.44, 120.56, 361.9, -358.44, 120.56, 344.88, -358.44, 120.56, 327.86, -358.44, 120.56, 310.84, -358.44, 120.56, 293.82, -358.44, 120.56, 276.79, -358.44, 120.56, 259.77, -358.44, 120.56, 242.75, -358.44, 120.56, 225.73, -358.44, 120.56, 208.71, -358.44, 120.56, 191.69, -358.44, 120.56, 174.67, -358.44, 120.56, 157.65, -358.44, 120.56, 140.63, -358.44, 120.56, 123.61, -358.44, 120.56, 106.59, -358.44, 120.56, 89.57, -358.44, 120.56, 72.55, -358.44, 120.56, 55.53, -358.44, 120.56, 38.5, -358.44, 120.56, 21.48, -358.44, 120.56, 4.46, -358.44, 120.56, -12.56, -358.44, 120.56, -29.58, -358.44, 120.56, -46.6, -358.44, 120.56, -63.62, -358.44, 120.56, -80.64, -358.44, 120.56, -97.66, -358.44, 120.56, -114.68, -358.44, 120.56, -131.7, -358.44, 120.56, -148.72, -358.44, 120.56, -165.74, -358.44, 120.56, -182.77, -358.44, 120.56, -199.79, -358.44, 120.56, -216.81, -358.44, 120.56, -233.83, -358.44, 120.56, -250.85, -358.44, 120.56, -267.87, -358.44, 120.56, -284.89, -358.44, 120.56, -301.91, -358.44, 120.56, -318.93, -358.44, 120.56, -335.95, -358.44, 120.56, -352.97, -358.44, 120.56, -369.99, -358.44, 120.56, -387.01, -358.44, 120.56, -404.04, -358.44, 120.56, -421.06, -358.44, 120.56, -438.08, -358.44, 120.56, -455.1, -358.44, 120.56, -472.12, -358.44, 120.56, -489.14, -358.44, 120.56, -506.16, -234.95, 140.44, 500.06, -234.95, 140.44, 483.04, -234.95, 140.44, 466.02, -234.95, 140.44, 449.0, -234.95, 140.44, 431.98, -234.95, 140.44, 414.96, -234.95, 140.44, 397.94, -234.95, 140.44, 380.92, -234.95, 140.44, 363.9, -234.95, 140.44, 346.88, -234.95, 140.44, 329.86, -234.95, 140.44, 312.84, -234.95, 140.44, 295.82, -234.95, 140.44, 278.79, -234.95, 140.44, 261.77, -234.95, 140.44, 244.75, -234.95, 140.44, 227.73, -234.95, 140.44, 210.71, -234.95, 140.44, 193.69, -234.95, 140.44, 176.67, -234.95, 140.44, 159.65, -234.95, 140.44, 142.63, -234.95, 140.44, 125.61, -234.95, 140.44, 108.59, -234.95, 140.44, 91.57, -234.95, 140.44, 74.55, -234.95, 140.44, 57.53, -234.95, 140.44, 40.5, -234.95, 140.44, 23.48, -234.95, 140.44, 6.46, -234.95, 140.44, -10.56, -234.95, 140.44, -27.58, -234.95, 140.44, -44.6, -234.95, 140.44, -61.62, -234.95, 140.44, -78.64, -234.95, 140.44, -95.66, -234.95, 140.44, -112.68, -234.95, 140.44, -129.7, -234.95, 140.44, -146.72, -234.95, 140.44, -163.74, -234.95, 140.44, -180.77, -234.95, 140.44, -197.79, -234.95, 140.44, -214.81, -234.95, 140.44, -231.83, -234.95, 140.44, -248.85, -234.95, 140.44, -265.87, -234.95, 140.44, -282.89, -234.95, 140.44, -299.91, -234.95, 140.44, -316.93, -234.95, 140.44, -333.95, -234.95, 140.44, -350.97, -234.95, 140.44, -367.99, -234.95, 140.44, -385.01, -234.95, 140.44, -402.04, -234.95, 140.44, -419.06, -234.95, 140.44, -436.08, -234.95, 140.44, -453.1, -234.95, 140.44, -470.12, -234.95, 140.44, -487.14, -234.95, 140.44, -504.16, -111.51, 159.98, 500.53, -111.51, 159.98, 483.51, -111.51, 159.98, 466.49, -111.51, 159.98, 449.47, -111.51, 159.98, 432.45, -111.51, 159.98, 415.43, -111.51, 159.98, 398.41, -111.51, 159.98, 381.39, -111.51, 159.98, 364.37, -111.51, 159.98, 347.35, -111.51, 159.98, 330.33, -111.51, 159.98, 313.31, -111.51, 159.98, 296.29, -111.51, 159.98, 279.26, -111.51, 159.98, 262.24, -111.51, 159.98, 245.22, -111.51, 159.98, 228.2, -111.51, 159.98, 211.18, -111.51, 159.98, 194.16, -111.51, 159.98, 177.14, -111.51, 159.98, 160.12, -111.51, 159.98, 143.1, -111.51, 159.98, 126.08, -111.51, 159.98, 109.06, -111.51, 159.98, 92.04, -111.51, 159.98, 75.02, -111.51, 159.98, 58.0, -111.51, 159.98, 40.97, -111.51, 159.98, 23.95, -111.51, 159.98, 6.93, -111.51, 159.98, -10.09, -111.51, 159.98, -27.11, -111.51, 159.98, -44.13, -111.51, 159.98, -61.15, -111.51, 159.98, -78.17, -111.51, 159.98, -95.19, -111.51, 159.98, -112.21, -111.51, 159.98, -129.23, -111.51, 159.98, -146.25, -111.51, 159.98, -163.27, -111.51, 159.98, -180.3, -111.51, 159.98, -197.32, -111.51, 159.98, -214.34, -111.51, 159.98, -231.36, -111.51, 159.98, -248.38, -111.51, 159.98, -265.4, -111.51, 159.98, -282.42, -111.51, 159.98, -299.44, -111.51, 159.98, -316.46, -111.51, 159.98, -333.48, -111.51, 159.98, -350.5, -111.51, 159.98, -367.52, -111.51, 159.98, -384.54, -111.51, 159.98, -401.57, -111.51, 159.98, -418.59, -111.51, 159.98, -435.61, -111.51, 159.98, -452.63, -111.51, 159.98, -469.65, -111.51, 159.98, -486.67, -111.51, 159.98, -503.69, 11.87, 179.19, 502.34, 11.87, 179.19, 485.32, 11.87, 179.19, 468.3, 11.87, 179.19, 451.28, 11.87, 179.19, 434.26, 11.87, 179.19, 417.24, 11.87, 179.19, 400.22, 11.87, 179.19, 383.2, 11.87, 179.19, 366.18, 11.87, 179.19, 349.16, 11.87, 179.19, 332.14, 11.87, 179.19, 315.12, 11.87, 179.19, 298.1, 11.87, 179.19, 281.07, 11.87, 179.19, 264.05, 11.87, 179.19, 247.03, 11.87, 179.19, 230.01, 11.87, 179.19, 212.99, 11.87, 179.19, 195.97, 11.87, 179.19, 178.95, 11.87, 179.19, 161.93, 11.87, 179.19, 144.91, 11.87, 179.19, 127.89, 11.87, 179.19, 110.87, 11.87, 179.19, 93.85, 11.87, 179.19, 76.83, 11.87, 179.19, 59.8, 11.87, 179.19, 42.78, 11.87, 179.19, 25.76, 11.87, 179.19, 8.74, 11.87, 179.19, -8.28, 11.87, 179.19, -25.3, 11.87, 179.19, -42.32, 11.87, 179.19, -59.34, 11.87, 179.19, -76.36, 11.87, 179.19, -93.38, 11.87, 179.19, -110.4, 11.87, 179.19, -127.42, 11.87, 179.19, -144.44, 11.87, 179.19, -161.47, 11.87, 179.19, -178.49, 11.87, 179.19, -195.51, 11.87, 179.19, -212.53, 11.87, 179.19, -229.55, 11.87, 179.19, -246.57, 11.87, 179.19, -263.59, 11.87, 179.19, -280.61, 11.87, 179.19, -297.63, 11.87, 179.19, -314.65, 11.87, 179.19, -331.67, 11.87, 179.19, -348.69, 11.87, 179.19, -365.71, 11.87, 179.19, -382.74, 11.87, 179.19, -399.76, 11.87, 179.19, -416.78, 11.87, 179.19, -433.8, 11.87, 179.19, -450.32, 11.87, 179.19, -467.34, 11.87, 179.19, -484.36, 11.87, 179.19, -501.58, 132.03, 202.98, 502.74, 132.03, 202.98, 485.72, 132.03, 202.98, 468.69, 132.03, 202.98, 451.67, 132.03, 202.98, 434.65, 132.03, 202.98, 417.63, 132.03, 202.98, 400.61, 132.03, 202.98, 383.59, 132.03, 202.98, 366.57, 132.03, 202.98, 349.55, 132.03, 202.98, 332.53, 132.03, 202.98, 315.51, 132.03, 202.98, 298.49, 132.03, 202.98, 281.47, 132.03, 202.98, 264.45, 132.03, 202.98, 247.42, 132.03, 202.98, 230.4, 132.03, 202.98, 213.38, 132.03, 202.98, 196.36, 132.03, 202.98, 179.34, 132.03, 202.98, 162.32, 132.03, 202.98, 145.3, 132.03, 202.98, 128.28, 132.03, 202.98, 111.26, 132.03, 202.98, 94.24, 132.03, 202.98, 77.22, 132.03, 202.98, 60.2, 132.03, 202.98, 43.18, 132.03, 202.98, 26.15, 132.03, 202.98, 9.13, 132.03, 202.98, -7.89, 132.03, 202.98, -24.91, 132.03, 202.98, -41.93, 132.03, 202.98, -58.95, 132.03, 202.98, -75.97, 132.03, 202.98, -92.99, 132.03, 202.98, -110.01, 132.03, 202.98, -127.03, 132.03, 202.98, -144.05, 132.03, 202.98, -161.07, 132.03, 202.98, -178.09, 132.03, 202.98, -195.12, 132.03, 202.98, -212.14, 132.03, 202.98, -229.16, 132.03, 202.98, -246.18, 132.03, 202.98, -263.2, 132.03, 202.98, -280.22, 132.03, 202.98, -297.24, 132.03, 202.98, -314.26, 132.03, 202.98, -331.28, 132.03, 202.98, -348.3, 132.03, 202.98, -365.32, 132.03, 202.98, -382.34, 132.03, 202.98, -399.36, 132.03, 202.98, -416.39, 132.03, 202.98, -433.41, 132.03, 202.98, -450.43, 132.03, 202.98, -467.45, 132.03, 202.98, -484.47, 132.03, 202.98, -502.39, 257.31, 211.66, 504.43, 257.31, 211.66, 487.4, 257.31, 211.66, 470.38, 257.31, 211.66, 453.36, 257.31, 211.66, 436.34, 257.31, 211.66, 419.32, 257.31, 211.66, 402.3, 257.31, 211.66, 385.28, 257.31, 211.66, 368.26, 257.31, 211.66, 351.24, 257.31, 211.66, 334.22, 257.31, 211.66, 317.2, 257.31, 211.66, 300.18, 257.31, 211.66, 283.16, 257.31, 211.66, 266.13, 257.31, 211.66, 249.11, 257.31, 211.66, 232.09, 257.31, 211.66, 215.07, 257.31, 211.66, 198.05, 257.31, 211.66, 181.03, 257.31, 211.66, 164.01, 257.31, 211.66, 146.99, 257.31, 211.66, 129.97, 257.31, 211.66, 112.95, 257.31, 211.66, 95.93, 257.31, 211.66, 78.91, 257.31, 211.66, 61.89, 257.31, 211.66, 44.86, 257.31, 211.66, 27.84, 257.31, 211.66, 10.82, 257.31, 211.66, -6.2, 257.31, 211.66, -23.22, 257.31, 211.66, -40.24, 257.31, 211.66, -57.26, 257.31, 211.66, -74.28, 257.31, 211.66, -91.3, 257.31, 211.66, -108.32, 257.31, 211.66, -125.34, 257.31, 211.66, -142.36, 257.31, 211.66, -159.38, 257.31, 211.66, -176.41, 257.31, 211.66, -193.43, 257.31, 211.66, -210.45, 257.31, 211.66, -227.47, 257.31, 211.66, -244.49, 257.31, 211.66, -261.51, 257.31, 211.66, -278.53, 257.31, 211.66, -295.55, 257.31, 211.66, -312.57, 257.31, 211.66, -329.59, 257.31, 211.66, -346.61, 257.31, 211.66, -363.63, 257.31, 211.66, -380.65, 257.31, 211.66, -397.67, 257.31, 211.66, -414.7, 257.31, 211.66, -431.72, 257.31, 211.66, -448.74, 257.31, 211.66, -465.76, 257.31, 211.66, -482.78, 257.31, 211.66, -500.2, 382.35, 238.9, 498.54, 382.35, 238.9, 481.52, 382.35, 238.9, 464.5, 382.35, 238.9, 447.48, 382.35, 238.9, 430.46, 382.35, 238.9, 413.44, 382.35, 238.9, 396.42, 382.35, 238.9, 379.4, 382.35, 238.9, 362.38, 382.35, 238.9, 345.36, 382.35, 238.9, 328.34, 382.35, 238.9, 311.32, 382.35, 238.9, 294.3, 382.35, 238.9, 277.27, 382.35, 238.9, 260.25, 382.35, 238.9, 243.23, 382.35, 238.9, 226.21, 382.35, 238.9, 209.19, 382.35, 238.9, 192.17, 382.35, 238.9, 175.15, 382.35, 238.9, 158.13, 382.35, 238.9, 141.11, 382.35, 238.9, 124.09, 382.35, 238.9, 107.07, 382.35, 238.9, 90.05, 382.35, 238.9, 73.03, 382.35, 238.9, 56.01, 382.35, 238.9, 38.98, 382.35, 238.9, 21.96, 382.35, 238.9, 4.94, 382.35, 238.9, -12.08, 382.35, 238.9, -29.1, 382.35, 238.9, -46.12, 382.35, 238.9, -63.14, 382.35, 238.9, -80.16, 382.35, 238.9, -97.18, 382.35, 238.9, -114.2, 382.35, 238.9, -131.22, 382.35, 238.9, -148.24, 382.35, 238.9, -165.26, 382.35, 238.9, -182.29, 382.35, 238.9, -199.31, 382.35, 238.9, -216.33, 382.35, 238.9, -233.35, 382.35, 238.9, -250.37, 382.35, 238.9, -267.39, 382.35, 238.9, -284.41, 382.35, 238.9, -301.43, 382.35, 238.9, -318.45, 382.35, 238.9, -335.47, 382.35, 238.9, -352.49, 382.35, 238.9, -369.51, 382.35, 238.9, -386.53, 382.35, 238.9, -403.56, 382.35, 238.9, -420.58, 382.35, 238.9, -437.6, 382.35, 238.9, -454.62, 382.35, 238.9, -471.64, 382.35, 238.9, -488.66, 382.35, 238.9, -505.68, 505.27, 257.88, 506.23, 505.27, 257.88, 489.21, 505.27, 257.88, 472.19, 505.27, 257.88, 455.17, 505.27, 257.88, 438.15, 505.27, 257.88, 421.13, 505.27, 257.88, 404.11, 505.27, 257.88, 387.09, 505.27, 257.88, 370.07, 505.27, 257.88, 353.05, 505.27, 257.88, 336.03, 505.27, 257.88, 319.01, 505.27, 257.88, 301.99, 505.27, 257.88, 284.96, 505.27, 257.88, 267.94, 505.27, 257.88, 250.92, 505.27, 257.88, 233.9, 505.27, 257.88, 216.88, 505.27, 257.88, 199.86, 505.27, 257.88, 182.84, 505.27, 257.88, 165.82, 505.27, 257.88, 148.8, 505.27, 257.88, 131.78, 505.27, 257.88, 114.76, 505.27, 257.88, 97.74, 505.27, 257.88, 80.72, 505.27, 257.88, 63.7, 505.27, 257.88, 46.67, 505.27, 257.88, 29.65, 505.27, 257.88, 12.63, 505.27, 257.88, -4.39, 505.27, 257.88, -21.41, 505.27, 257.88, -38.43, 505.27, 257.88, -55.45, 505.27, 257.88, -72.47, 505.27, 257.88, -89.49, 505.27, 257.88, -106.51, 505.27, 257.88, -123.53, 505.27, 257.88, -140.55, 505.27, 257.88, -157.57, 505.27, 257.88, -174.6, 505.27, 257.88, -191.62, 505.27, 257.88, -208.64, 505.27, 257.88, -225.66, 505.27, 257.88, -242.68, 505.27, 257.88, -259.7, 505.27, 257.88, -276.72, 505.27, 257.88, -293.74, 505.27, 257.88, -310.76, 505.27, 257.88, -327.78, 505.27, 257.88, -344.8, 505.27, 257.88, -361.82, 505.27, 257.88, -378.84, 505.27, 257.88, -395.87, 505.27, 257.88, -412.89, 505.27, 257.88, -429.91, 505.27, 257.88, -446.93, 505.27, 257.88, -463.95, 505.27, 257.88, -480.97, 505.27, 257.88, -497.99, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -437.04, 217.8, 501.47, -437.04, 217.8, 484.44, -437.04, 217.8, 467.77, -437.04, 217.8, 450.4, -437.04, 217.8, 433.38, -437.04, 217.8, 416.36, -437.04, 217.8, 399.34, -437.04, 217.8, 382.32, -437.04, 217.8, 365.3, -437.04, 217.8, 348.28, -437.04, 217.8, 331.26, -437.04, 217.8, 314.24, -437.04, 217.8, 297.22, -437.04, 217.8, 280.2, -437.04, 217.8, 263.18, -437.04, 217.8, 246.15, -437.04, 217.8, 229.13, -437.04, 217.8, 212.11, -437.04, 217.8, 195.09, -437.04, 217.8, 178.07, -437.04, 217.8, 161.05, -437.04, 217.8, 144.03, -437.04, 217.8, 127.01, -437.04, 217.8, 109.99, -437.04, 217.8, 92.97, -437.04, 217.8, 75.95, -437.04, 217.8, 58.93, -437.04, 217.8, 41.91, -437.04, 217.8, 24.88, -437.04, 217.8, 7.86, -437.04, 217.8, -9.16, -437.04, 217.8, -26.18, -437.04, 217.8, -43.2, -437.04, 217.8, -60.22, -437.04, 217.8, -77.24, -437.04, 217.8, -94.26, -437.04, 217.8, -111.28, -437.04, 217.8, -128.3, -437.04, 217.8, -145.32, -437.04, 217.8, -162.34, -437.04, 217.8, -179.36, -437.04, 217.8, -196.39, -437.04, 217.8, -213.41, -437.04, 217.8, -230.43, -437.04, 217.8, -247.45, -437.04, 217.8, -264.47, -437.04, 217.8, -281.49, -437.04, 217.8, -298.51, -437.04, 217.8, -315.53, -437.04, 217.8, -332.55, -437.04, 217.8, -349.57, -437.04, 217.8, -366.59, -437.04, 217.8, -383.61, -437.04, 217.8, -400.63, -437.04, 217.8, -417.66, -437.04, 217.8, -434.68, -437.04, 217.8, -451.7, -437.04, 217.8, -468.72, -437.04, 217.8, -485.74, -437.04, 217.8, -503.46, -313.6, 237.44, 501.19, -313.6, 237.44, 484.17, -313.6, 237.44, 467.15, -313.6, 237.44, 450.13, -313.6, 237.44, 433.11, -313.6, 237.44, 416.09, -313.6, 237.44, 399.07, -313.6, 237.44, 382.05, -313.6, 237.44, 365.03, -313.6, 237.44, 348.01, -313.6, 237.44, 330.99, -313.6, 237.44, 313.97, -313.6, 237.44, 296.95, -313.6, 237.44, 279.92, -313.6, 237.44, 262.9, -313.6, 237.44, 245.88, -313.6, 237.44, 228.86, -313.6, 237.44, 211.84, -313.6, 237.44, 194.82, -313.6, 237.44, 177.8, -313.6, 237.44, 160.78, -313.6, 237.44, 143.76, -313.6, 237.44, 126.74, -313.6, 237.44, 109.72, -313.6, 237.44, 92.7, -313.6, 237.44, 75.68, -313.6, 237.44, 58.66, -313.6, 237.44, 41.63, -313.6, 237.44, 24.61, -313.6, 237.44, 7.59, -313.6, 237.44, -9.43, -313.6, 237.44, -26.45, -313.6, 237.44, -43.47, -313.6, 237.44, -60.49, -313.6, 237.44, -77.51, -313.6, 237.44, -94.53, -313.6, 237.44, -111.55, -313.6, 237.44, -128.57, -313.6, 237.44, -145.59, -313.6, 237.44, -162.61, -313.6, 237.44, -179.64, -313.6, 237.44, -196.66, -313.6, 237.44, -213.68, -313.6, 237.44, -230.7, -313.6, 237.44, -247.72, -313.6, 237.44, -264.74, -313.6, 237.44, -281.76, -313.6, 237.44, -298.78, -313.6, 237.44, -315.8, -313.6, 237.44, -332.82, -313.6, 237.44, -349.84, -313.6, 237.44, -366.86, -313.6, 237.44, -383.88, -313.6, 237.44, -400.91, -313.6, 237.44, -417.93, -313.6, 237.44, -434.95, -313.6, 237.44, -451.97, -313.6, 237.44, -468.99, -313.6, 237.44, -486.01, -313.6, 237.44, -503.03, -189.98, 257.42, 501.35, -189.98, 257.42, 484.33, -189.98, 257.42, 467.31, -189.98, 257.42, 450.29, -189.98, 257.42, 433.27, -189.98, 257.42, 416.45, -189.98, 257.42, 399.23, -189.98, 257.42, 382.46, -189.98, 257.42, 365.19, -189.98, 257.42, 348.17, -189.98, 257.42, 331.15, -189.98, 257.42, 314.13, -189.98, 257.42, 297.11, -189.98, 257.42, 280.08, -189.98, 257.42, 263.06, -189.98, 257.42, 246.24, -189.98, 257.42, 229.02, -189.98, 257.42, 212.2, -189.98, 257.42, 194.98, -189.98, 257.42, 178.21, -189.98, 257.42, 160.94, -189.98, 257.42, 143.92, -189.98, 257.42, 126.9, -189.98, 257.42, 109.88, -189.98, 257.42, 92.86, -189.98, 257.42, 75.84, -189.98, 257.42, 58.82, -189.98, 257.42, 41.79, -189.98, 257.42, 24.77, -189.98, 257.42, 7.75, -189.98, 257.42, -9.27, -189.98, 257.42, -26.29, -189.98, 257.42, -43.31, -189.98, 257.42, -60.33, -189.98, 257.42, -77.35, -189.98, 257.42, -94.37, -189.98, 257.42, -111.39, -189.98, 257.42, -128.41, -189.98, 257.42, -145.43, -189.98, 257.42, -162.2, -189.98, 257.42, -179.48, -189.98, 257.42, -196.5, -189.98, 257.42, -213.52, -189.98, 257.42, -230.54, -189.98, 257.42, -247.56, -189.98, 257.42, -264.58, -189.98, 257.42, -281.6, -189.98, 257.42, -298.62, -189.98, 257.42, -315.64, -189.98, 257.42, -332.66, -189.98, 257.42, -349.68, -189.98, 257.42, -366.7, -189.98, 257.42, -383.72, -189.98, 257.42, -400.75, -189.98, 257.42, -417.77, -189.98, 257.42, -434.79, -189.98, 257.42, -451.81, -189.98, 257.42, -468.83, -189.98, 257.42, -485.85, -189.98, 257.42, -502.87, -66.7, 276.92, 497.82, -66.7, 276.92, 480.8, -66.7, 276.92, 463.78, -66.7, 276.92, 446.76, -66.7, 276.92, 429.74, -66.7, 276.92, 412.72, -66.7, 276.92, 395.7, -66.7, 276.92, 378.68, -66.7, 276.92, 361.66, -66.7, 276.92, 344.64, -66.7, 276.92, 327.62, -66.7, 276.92, 310.6, -66.7, 276.92, 293.58, -66.7, 276.92, 276.55, -66.7, 276.92, 259.53, -66.7, 276.92, 242.51, -66.7, 276.92, 225.49, -66.7, 276.92, 208.47, -66.7, 276.92, 191.45, -66.7, 276.92, 174.43, -66.7, 276.92, 157.41, -66.7, 276.92, 140.39, -66.7, 276.92, 123.37, -66.7, 276.92, 106.35, -66.7, 276.92, 89.33, -66.7, 276.92, 72.31, -66.7, 276.92, 55.29, -66.7, 276.92, 38.26, -66.7, 276.92, 21.24, -66.7, 276.92, 4.22, -66.7, 276.92, -12.8, -66.7, 276.92, -29.82, -66.7, 276.92, -46.84, -66.7, 276.92, -63.86, -66.7, 276.92, -80.88, -66.7, 276.92, -97.9, -66.7, 276.92, -114.92, -66.7, 276.92, -131.94, -66.7, 276.92, -148.96, -66.7, 276.92, -165.98, -66.7, 276.92, -183.01, -66.7, 276.92, -200.03, -66.7, 276.92, -217.05, -66.7, 276.92, -234.07, -66.7, 276.92, -251.09, -66.7, 276.92, -268.11, -66.7, 276.92, -285.13, -66.7, 276.92, -302.15, -66.7, 276.92, -319.17, -66.7, 276.92, -336.19, -66.7, 276.92, -353.21, -66.7, 276.92, -370.23, -66.7, 276.92, -387.25, -66.7, 276.92, -404.28, -66.7, 276.92, -421.3, -66.7, 276.92, -438.32, -66.7, 276.92, -455.34, -66.7, 276.92, -472.36, -66.7, 276.92, -489.38, -66.7, 276.92, -506.4, 54.26, 292.97, 524.56, 54.26, 292.97, 507.53, 54.26, 292.97, 490.51, 54.26, 292.97, 473.49, 54.26, 292.97, 456.47, 54.26, 292.97, 439.45, 54.26, 292.97, 422.43, 54.26, 292.97, 405.41, 54.26, 292.97, 388.39, 54.26, 292.97, 371.37, 54.26, 292.97, 354.35, 54.26, 292.97, 337.33, 54.26, 292.97, 320.31, 54.26, 292.97, 303.29, 54.26, 292.97, 286.26, 54.26, 292.97, 269.24, 54.26, 292.97, 252.22, 54.26, 292.97, 235.2, 54.26, 292.97, 218.18, 54.26, 292.97, 201.16, 54.26, 292.97, 184.14, 54.26, 292.97, 167.12, 54.26, 292.97, 150.1, 54.26, 292.97, 133.08, 54.26, 292.97, 116.06, 54.26, 292.97, 99.04, 54.26, 292.97, 82.02, 54.26, 292.97, 64.99, 54.26, 292.97, 47.97, 54.26, 292.97, 30.95, 54.26, 292.97, 13.93, 54.26, 292.97, -3.09, 54.26, 292.97, -20.11, 54.26, 292.97, -37.13, 54.26, 292.97, -54.15, 54.26, 292.97, -71.17, 54.26, 292.97, -88.19, 54.26, 292.97, -105.21, 54.26, 292.97, -122.23, 54.26, 292.97, -139.25, 54.26, 292.97, -156.28, 54.26, 292.97, -173.3, 54.26, 292.97, -190.32, 54.26, 292.97, -207.34, 54.26, 292.97, -224.36, 54.26, 292.97, -241.38, 54.26, 292.97, -258.4, 54.26, 292.97, -275.42, 54.26, 292.97, -292.44, 54.26, 292.97, -309.46, 54.26, 292.97, -326.48, 54.26, 292.97, -343.5, 54.26, 292.97, -360.52, 54.26, 292.97, -377.54, 54.26, 292.97, -394.57, 54.26, 292.97, -411.59, 54.26, 292.97, -428.61, 54.26, 292.97, -445.63, 54.26, 292.97, -462.65, 54.26, 292.97, -480.07, 174.47, 315.54, 512.74, 174.47, 315.54, 495.72, 174.47, 315.54, 478.7, 174.47, 315.54, 461.68, 174.47, 315.54, 444.66, 174.47, 315.54, 427.64, 174.47, 315.54, 410.62, 174.47, 315.54, 393.6, 174.47, 315.54, 376.58, 174.47, 315.54, 359.56, 174.47, 315.54, 342.54, 174.47, 315.54, 325.52, 174.47, 315.54, 308.5, 174.47, 315.54, 291.47, 174.47, 315.54, 274.45, 174.47, 315.54, 257.43, 174.47, 315.54, 240.41, 174.47, 315.54, 223.39, 174.47, 315.54, 206.37, 174.47, 315.54, 189.35, 174.47, 315.54, 172.33, 174.47, 315.54, 155.31, 174.47, 315.54, 138.29, 174.47, 315.54, 121.27, 174.47, 315.54, 104.25, 174.47, 315.54, 87.23, 174.47, 315.54, 70.21, 174.47, 315.54, 53.18, 174.47, 315.54, 36.16, 174.47, 315.54, 19.14, 174.47, 315.54, 2.12, 174.47, 315.54, -14.9, 174.47, 315.54, -31.92, 174.47, 315.54, -48.94, 174.47, 315.54, -65.96, 174.47, 315.54, -82.98, 174.47, 315.54, -100.0, 174.47, 315.54, -117.02, 174.47, 315.54, -134.04, 174.47, 315.54, -151.06, 174.47, 315.54, -168.09, 174.47, 315.54, -185.11, 174.47, 315.54, -202.13, 174.47, 315.54, -219.15, 174.47, 315.54, -236.17, 174.47, 315.54, -253.19, 174.47, 315.54, -270.21, 174.47, 315.54, -287.23, 174.47, 315.54, -304.25, 174.47, 315.54, -321.27, 174.47, 315.54, -338.29, 174.47, 315.54, -355.31, 174.47, 315.54, -372.33, 174.47, 315.54, -389.36, 174.47, 315.54, -406.38, 174.47, 315.54, -423.4, 174.47, 315.54, -440.42, 174.47, 315.54, -457.44, 174.47, 315.54, -474.46, 174.47, 315.54, -491.48, 303.41, 335.64, 512.95, 303.41, 335.64, 495.93, 303.41, 335.64, 478.91, 303.41, 335.64, 461.89, 303.41, 335.64, 444.87, 303.41, 335.64, 427.85, 303.41, 335.64, 410.83, 303.41, 335.64, 393.81, 303.41, 335.64, 376.79, 303.41, 335.64, 359.77, 303.41, 335.64, 342.75, 303.41, 335.64, 325.73, 303.41, 335.64, 308.71, 303.41, 335.64, 291.68, 303.41, 335.64, 274.66, 303.41, 335.64, 257.64, 303.41, 335.64, 240.62, 303.41, 335.64, 223.6, 303.41, 335.64, 206.58, 303.41, 335.64, 189.56, 303.41, 335.64, 172.54, 303.41, 335.64, 155.52, 303.41, 335.64, 138.5, 303.41, 335.64, 121.48, 303.41, 335.64, 104.46, 303.41, 335.64, 87.44, 303.41, 335.64, 70.42, 303.41, 335.64, 53.39, 303.41, 335.64, 36.37, 303.41, 335.64, 19.35, 303.41, 335.64, 2.33, 303.41, 335.64, -14.69, 303.41, 335.64, -31.71, 303.41, 335.64, -48.73, 303.41, 335.64, -65.75, 303.41, 335.64, -82.77, 303.41, 335.64, -99.79, 303.41, 335.64, -116.81, 303.41, 335.64, -133.83, 303.41, 335.64, -150.85, 303.41, 335.64, -167.88, 303.41, 335.64, -184.9, 303.41, 335.64, -201.92, 303.41, 335.64, -218.94, 303.41, 335.64, -235.96, 303.41, 335.64, -252.98, 303.41, 335.64, -270.0, 303.41, 335.64, -287.02, 303.41, 335.64, -304.04, 303.41, 335.64, -321.06, 303.41, 335.64, -338.08, 303.41, 335.64, -355.1, 303.41, 335.64, -372.12, 303.41, 335.64, -389.15, 303.41, 335.64, -406.17, 303.41, 335.64, -423.19, 303.41, 335.64, -440.21, 303.41, 335.64, -457.23, 303.41, 335.64, -474.25, 303.41, 335.64, -491.27, 429.76, 351.02, 506.14, 429.76, 351.02, 489.12, 429.76, 351.02, 472.1, 429.76, 351.02, 455.08, 429.76, 351.02, 438.06, 429.76, 351.02, 421.04, 429.76, 351.02, 404.02, 429.76, 351.02, 387.0, 429.76, 351.02, 369.98, 429.76, 351.02, 352.96, 429.76, 351.02, 335.94, 429.76, 351.02, 318.92, 429.76, 351.02, 301.9, 429.76, 351.02, 284.87, 429.76, 351.02, 267.85, 429.76, 351.02, 250.83, 429.76, 351.02, 233.81, 429.76, 351.02, 216.79, 429.76, 351.02, 199.77, 429.76, 351.02, 182.75, 429.76, 351.02, 165.73, 429.76, 351.02, 148.71, 429.76, 351.02, 131.69, 429.76, 351.02, 114.67, 429.76, 351.02, 97.65, 429.76, 351.02, 80.63, 429.76, 351.02, 63.61, 429.76, 351.02, 46.58, 429.76, 351.02, 29.56, 429.76, 351.02, 12.54, 429.76, 351.02, -4.48, 429.76, 351.02, -21.5, 429.76, 351.02, -38.52, 429.76, 351.02, -55.54, 429.76, 351.02, -72.56, 429.76, 351.02, -89.58, 429.76, 351.02, -106.6, 429.76, 351.02, -123.62, 429.76, 351.02, -140.64, 429.76, 351.02, -157.66, 429.76, 351.02, -174.69, 429.76, 351.02, -191.71, 429.76, 351.02, -208.73, 429.76, 351.02, -225.75, 429.76, 351.02, -242.77, 429.76, 351.02, -259.79, 429.76, 351.02, -276.81, 429.76, 351.02, -293.83, 429.76, 351.02, -310.85, 429.76, 351.02, -327.87, 429.76, 351.02, -344.89, 429.76, 351.02, -361.91, 429.76, 351.02, -378.93, 429.76, 351.02, -395.96, 429.76, 351.02, -412.98, 429.76, 351.02, -430.0, 429.76, 351.02, -447.02, 429.76, 351.02, -464.04, 429.76, 351.02, -481.06, 429.76, 351.02, -498.08, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -392.38, 334.24, 502.79, -392.38, 334.24, 485.77, -392.38, 334.24, 468.75, -392.38, 334.24, 451.73, -392.38, 334.24, 434.71, -392.38, 334.24, 417.69, -392.38, 334.24, 400.67, -392.38, 334.24, 383.65, -392.38, 334.24, 366.63, -392.38, 334.24, 349.61, -392.38, 334.24, 332.59, -392.38, 334.24, 315.57, -392.38, 334.24, 298.55, -392.38, 334.24, 281.52, -392.38, 334.24, 264.5, -392.38, 334.24, 247.48, -392.38, 334.24, 230.46, -392.38, 334.24, 213.44, -392.38, 334.24, 196.42, -392.38, 334.24, 179.4, -392.38, 334.24, 162.38, -392.38, 334.24, 145.36, -392.38, 334.24, 128.34, -392.38, 334.24, 111.32, -392.38, 334.24, 94.3, -392.38, 334.24, 77.28, -392.38, 334.24, 60.26, -392.38, 334.24, 43.23, -392.38, 334.24, 26.21, -392.38, 334.24, 9.19, -392.38, 334.24, -7.83, -392.38, 334.24, -24.85, -392.38, 334.24, -41.87, -392.38, 334.24, -58.89, -392.38, 334.24, -75.91, -392.38, 334.24, -92.93, -392.38, 334.24, -109.95, -392.38, 334.24, -126.97, -392.38, 334.24, -143.99, -392.38, 334.24, -161.01, -392.38, 334.24, -178.04, -392.38, 334.24, -195.06, -392.38, 334.24, -212.08, -392.38, 334.24, -229.1, -392.38, 334.24, -246.12, -392.38, 334.24, -263.14, -392.38, 334.24, -280.16, -392.38, 334.24, -297.18, -392.38, 334.24, -314.2, -392.38, 334.24, -331.22, -392.38, 334.24, -348.24, -392.38, 334.24, -365.26, -392.38, 334.24, -382.28, -392.38, 334.24, -399.31, -392.38, 334.24, -416.33, -392.38, 334.24, -433.35, -392.38, 334.24, -450.37, -392.38, 334.24, -467.39, -392.38, 334.24, -484.41, -392.38, 334.24, -501.43, -268.9, 354.24, 501.54, -268.9, 354.24, 484.51, -268.9, 354.24, 467.49, -268.9, 354.24, 450.47, -268.9, 354.24, 433.45, -268.9, 354.24, 416.43, -268.9, 354.24, 399.41, -268.9, 354.24, 382.39, -268.9, 354.24, 365.37, -268.9, 354.24, 348.35, -268.9, 354.24, 331.33, -268.9, 354.24, 314.31, -268.9, 354.24, 297.29, -268.9, 354.24, 280.27, -268.9, 354.24, 263.24, -268.9, 354.24, 246.22, -268.9, 354.24, 229.2, -268.9, 354.24, 212.18, -268.9, 354.24, 195.16, -268.9, 354.24, 178.14, -268.9, 354.24, 161.12, -268.9, 354.24, 144.1, -268.9, 354.24, 127.08, -268.9, 354.24, 110.06, -268.9, 354.24, 93.04, -268.9, 354.24, 76.02, -268.9, 354.24, 59.0, -268.9, 354.24, 41.97, -268.9, 354.24, 24.95, -268.9, 354.24, 7.93, -268.9, 354.24, -9.09, -268.9, 354.24, -26.11, -268.9, 354.24, -43.13, -268.9, 354.24, -60.15, -268.9, 354.24, -77.17, -268.9, 354.24, -94.19, -268.9, 354.24, -111.21, -268.9, 354.24, -128.23, -268.9, 354.24, -145.25, -268.9, 354.24, -162.27, -268.9, 354.24, -179.3, -268.9, 354.24, -196.32, -268.9, 354.24, -213.34, -268.9, 354.24, -230.36, -268.9, 354.24, -247.38, -268.9, 354.24, -264.4, -268.9, 354.24, -281.42, -268.9, 354.24, -298.44, -268.9, 354.24, -315.46, -268.9, 354.24, -332.48, -268.9, 354.24, -349.5, -268.9, 354.24, -366.52, -268.9, 354.24, -383.54, -268.9, 354.24, -400.57, -268.9, 354.24, -417.59, -268.9, 354.24, -434.61, -268.9, 354.24, -451.63, -268.9, 354.24, -468.65, -268.9, 354.24, -485.67, -268.9, 354.24, -502.89, -145.45, 374.24, 502.09, -145.45, 374.24, 485.07, -145.45, 374.24, 468.04, -145.45, 374.24, 451.02, -145.45, 374.24, 434.0, -145.45, 374.24, 416.98, -145.45, 374.24, 399.96, -145.45, 374.24, 382.94, -145.45, 374.24, 365.92, -145.45, 374.24, 348.9, -145.45, 374.24, 331.88, -145.45, 374.24, 314.86, -145.45, 374.24, 297.84, -145.45, 374.24, 280.82, -145.45, 374.24, 263.8, -145.45, 374.24, 246.77, -145.45, 374.24, 229.75, -145.45, 374.24, 212.73, -145.45, 374.24, 195.71, -145.45, 374.24, 178.69, -145.45, 374.24, 161.67, -145.45, 374.24, 144.65, -145.45, 374.24, 127.63, -145.45, 374.24, 110.61, -145.45, 374.24, 93.59, -145.45, 374.24, 76.57, -145.45, 374.24, 59.55, -145.45, 374.24, 42.53, -145.45, 374.24, 25.5, -145.45, 374.24, 8.48, -145.45, 374.24, -8.54, -145.45, 374.24, -25.56, -145.45, 374.24, -42.58, -145.45, 374.24, -59.6, -145.45, 374.24, -76.62, -145.45, 374.24, -93.64, -145.45, 374.24, -110.66, -145.45, 374.24, -127.68, -145.45, 374.24, -144.7, -145.45, 374.24, -161.72, -145.45, 374.24, -178.74, -145.45, 374.24, -195.77, -145.45, 374.24, -212.79, -145.45, 374.24, -229.81, -145.45, 374.24, -246.83, -145.45, 374.24, -263.85, -145.45, 374.24, -280.87, -145.45, 374.24, -297.89, -145.45, 374.24, -314.91, -145.45, 374.24, -331.93, -145.45, 374.24, -348.95, -145.45, 374.24, -365.97, -145.45, 374.24, -382.99, -145.45, 374.24, -400.01, -145.45, 374.24, -417.03, -145.45, 374.24, -434.06, -145.45, 374.24, -451.08, -145.45, 374.24, -468.1, -145.45, 374.24, -485.12, -145.45, 374.24, -503.14, -21.97, 393.24, 499.81, -21.97, 393.24, 482.79, -21.97, 393.24, 465.77, -21.97, 393.24, 448.75, -21.97, 393.24, 431.73, -21.97, 393.24, 414.71, -21.97, 393.24, 397.69, -21.97, 393.24, 380.67, -21.97, 393.24, 363.65, -21.97, 393.24, 346.63, -21.97, 393.24, 329.61, -21.97, 393.24, 312.59, -21.97, 393.24, 295.57, -21.97, 393.24, 278.54, -21.97, 393.24, 261.52, -21.97, 393.24, 244.5, -21.97, 393.24, 227.48, -21.97, 393.24, 210.46, -21.97, 393.24, 193.44, -21.97, 393.24, 176.42, -21.97, 393.24, 159.4, -21.97, 393.24, 142.38, -21.97, 393.24, 125.36, -21.97, 393.24, 108.34, -21.97, 393.24, 91.32, -21.97, 393.24, 74.3, -21.97, 393.24, 57.28, -21.97, 393.24, 40.25, -21.97, 393.24, 23.23, -21.97, 393.24, 6.21, -21.97, 393.24, -10.81, -21.97, 393.24, -27.83, -21.97, 393.24, -44.85, -21.97, 393.24, -61.87, -21.97, 393.24, -78.89, -21.97, 393.24, -95.91, -21.97, 393.24, -112.93, -21.97, 393.24, -129.95, -21.97, 393.24, -146.97, -21.97, 393.24, -163.99, -21.97, 393.24, -181.02, -21.97, 393.24, -198.04, -21.97, 393.24, -215.06, -21.97, 393.24, -232.08, -21.97, 393.24, -249.1, -21.97, 393.24, -266.12, -21.97, 393.24, -283.14, -21.97, 393.24, -300.16, -21.97, 393.24, -317.18, -21.97, 393.24, -334.2, -21.97, 393.24, -351.22, -21.97, 393.24, -368.24, -21.97, 393.24, -385.26, -21.97, 393.24, -402.29, -21.97, 393.24, -419.31, -21.97, 393.24, -436.33, -21.97, 393.24, -453.35, -21.97, 393.24, -470.37, -21.97, 393.24, -487.39, -21.97, 393.24, -504.41, 101.04, 412.79, 504.42, 101.04, 412.79, 487.39, 101.04, 412.79, 470.37, 101.04, 412.79, 453.35, 101.04, 412.79, 436.33, 101.04, 412.79, 419.31, 101.04, 412.79, 402.29, 101.04, 412.79, 385.27, 101.04, 412.79, 368.25, 101.04, 412.79, 351.23, 101.04, 412.79, 334.21, 101.04, 412.79, 317.19, 101.04, 412.79, 300.17, 101.04, 412.79, 283.15, 101.04, 412.79, 266.13, 101.04, 412.79, 249.1, 101.04, 412.79, 232.08, 101.04, 412.79, 215.06, 101.04, 412.79, 198.04, 101.04, 412.79, 181.02, 101.04, 412.79, 164.0, 101.04, 412.79, 146.98, 101.04, 412.79, 129.96, 101.04, 412.79, 112.94, 101.04, 412.79, 95.92, 101.04, 412.79, 78.9, 101.04, 412.79, 61.88, 101.04, 412.79, 44.86, 101.04, 412.79, 27.83, 101.04, 412.79, 10.81, 101.04, 412.79, -6.21, 101.04, 412.79, -23.23, 101.04, 412.79, -40.25, 101.04, 412.79, -57.27, 101.04, 412.79, -74.29, 101.04, 412.79, -91.31, 101.04, 412.79, -108.33, 101.04, 412.79, -125.35, 101.04, 412.79, -142.37, 101.04, 412.79, -159.39, 101.04, 412.79, -176.41, 101.04, 412.79, -193.44, 101.04, 412.79, -210.46, 101.04, 412.79, -227.48, 101.04, 412.79, -244.5, 101.04, 412.79, -261.52, 101.04, 412.79, -278.54, 101.04, 412.79, -295.56, 101.04, 412.79, -312.58, 101.04, 412.79, -329.6, 101.04, 412.79, -346.62, 101.04, 412.79, -363.64, 101.04, 412.79, -380.66, 101.04, 412.79, -397.68, 101.04, 412.79, -414.71, 101.04, 412.79, -431.73, 101.04, 412.79, -448.75, 101.04, 412.79, -465.77, 101.04, 412.79, -482.79, 101.04, 412.79, -500.51, 224.58, 432.35, 497.06, 224.58, 432.35, 480.04, 224.58, 432.35, 463.02, 224.58, 432.35, 446.0, 224.58, 432.35, 428.98, 224.58, 432.35, 411.96, 224.58, 432.35, 394.94, 224.58, 432.35, 377.92, 224.58, 432.35, 360.9, 224.58, 432.35, 343.88, 224.58, 432.35, 326.86, 224.58, 432.35, 309.84, 224.58, 432.35, 292.82, 224.58, 432.35, 275.79, 224.58, 432.35, 258.77, 224.58, 432.35, 241.75, 224.58, 432.35, 224.73, 224.58, 432.35, 207.71, 224.58, 432.35, 190.69, 224.58, 432.35, 173.67, 224.58, 432.35, 156.65, 224.58, 432.35, 139.63, 224.58, 432.35, 122.61, 224.58, 432.35, 105.59, 224.58, 432.35, 88.57, 224.58, 432.35, 71.55, 224.58, 432.35, 54.53, 224.58, 432.35, 37.5, 224.58, 432.35, 20.48, 224.58, 432.35, 3.46, 224.58, 432.35, -13.56, 224.58, 432.35, -30.58, 224.58, 432.35, -47.6, 224.58, 432.35, -64.62, 224.58, 432.35, -81.64, 224.58, 432.35, -98.66, 224.58, 432.35, -115.68, 224.58, 432.35, -132.7, 224.58, 432.35, -149.72, 224.58, 432.35, -166.74, 224.58, 432.35, -183.77, 224.58, 432.35, -200.79, 224.58, 432.35, -217.81, 224.58, 432.35, -234.83, 224.58, 432.35, -251.85, 224.58, 432.35, -268.87, 224.58, 432.35, -285.89, 224.58, 432.35, -302.91, 224.58, 432.35, -319.93, 224.58, 432.35, -336.95, 224.58, 432.35, -353.97, 224.58, 432.35, -370.99, 224.58, 432.35, -388.01, 224.58, 432.35, -405.04, 224.58, 432.35, -422.06, 224.58, 432.35, -439.08, 224.58, 432.35, -456.1, 224.58, 432.35, -473.12, 224.58, 432.35, -490.14, 224.58, 432.35, -507.16, 338.44, 463.72, 505.72, 338.44, 463.72, 488.7, 338.44, 463.72, 471.68, 338.44, 463.72, 454.66, 338.44, 463.72, 437.64, 338.44, 463.72, 420.62, 338.44, 463.72, 403.6, 338.44, 463.72, 386.58, 338.44, 463.72, 369.56, 338.44, 463.72, 352.54, 338.44, 463.72, 335.52, 338.44, 463.72, 318.5, 338.44, 463.72, 301.48, 338.44, 463.72, 284.45, 338.44, 463.72, 267.43, 338.44, 463.72, 250.41, 338.44, 463.72, 233.39, 338.44, 463.72, 216.37, 338.44, 463.72, 199.35, 338.44, 463.72, 182.33, 338.44, 463.72, 165.31, 338.44, 463.72, 148.29, 338.44, 463.72, 131.27, 338.44, 463.72, 114.25, 338.44, 463.72, 97.23, 338.44, 463.72, 80.21, 338.44, 463.72, 63.19, 338.44, 463.72, 46.16, 338.44, 463.72, 29.14, 338.44, 463.72, 12.12, 338.44, 463.72, -4.9, 338.44, 463.72, -21.92, 338.44, 463.72, -38.94, 338.44, 463.72, -55.96, 338.44, 463.72, -72.98, 338.44, 463.72, -90.0, 338.44, 463.72, -107.02, 338.44, 463.72, -124.04, 338.44, 463.72, -141.06, 338.44, 463.72, -158.08, 338.44, 463.72, -175.11, 338.44, 463.72, -192.13, 338.44, 463.72, -209.15, 338.44, 463.72, -226.17, 338.44, 463.72, -243.19, 338.44, 463.72, -260.21, 338.44, 463.72, -277.23, 338.44, 463.72, -294.25, 338.44, 463.72, -311.27, 338.44, 463.72, -328.29, 338.44, 463.72, -345.31, 338.44, 463.72, -362.33, 338.44, 463.72, -379.35, 338.44, 463.72, -396.38, 338.44, 463.72, -413.4, 338.44, 463.72, -430.42, 338.44, 463.72, -447.44, 338.44, 463.72, -464.46, 338.44, 463.72, -481.48, 338.44, 463.72, -498.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -347.88, 451.52, 502.01, -347.88, 451.52, 484.98, -347.88, 451.52, 467.96, -347.88, 451.52, 450.94, -347.88, 451.52, 433.92, -347.88, 451.52, 416.9, -347.88, 451.52, 399.88, -347.88, 451.52, 382.86, -347.88, 451.52, 365.84, -347.88, 451.52, 348.82, -347.88, 451.52, 331.8, -347.88, 451.52, 314.78, -347.88, 451.52, 297.76, -347.88, 451.52, 280.74, -347.88, 451.52, 263.71, -347.88, 451.52, 246.69, -347.88, 451.52, 229.67, -347.88, 451.52, 212.65, -347.88, 451.52, 195.63, -347.88, 451.52, 178.61, -347.88, 451.52, 161.59, -347.88, 451.52, 144.57, -347.88, 451.52, 127.55, -347.88, 451.52, 110.53, -347.88, 451.52, 93.51, -347.88, 451.52, 76.49, -347.88, 451.52, 59.47, -347.88, 451.52, 42.44, -347.88, 451.52, 25.42, -347.88, 451.52, 8.4, -347.88, 451.52, -8.62, -347.88, 451.52, -25.64, -347.88, 451.52, -42.66, -347.88, 451.52, -59.68, -347.88, 451.52, -76.7, -347.88, 451.52, -93.72, -347.88, 451.52, -110.74, -347.88, 451.52, -127.76, -347.88, 451.52, -144.78, -347.88, 451.52, -161.8, -347.88, 451.52, -178.83, -347.88, 451.52, -195.85, -347.88, 451.52, -212.87, -347.88, 451.52, -229.89, -347.88, 451.52, -246.91, -347.88, 451.52, -263.93, -347.88, 451.52, -280.95, -347.88, 451.52, -297.97, -347.88, 451.52, -314.99, -347.88, 451.52, -332.01, -347.88, 451.52, -349.03, -347.88, 451.52, -366.05, -347.88, 451.52, -383.07, -347.88, 451.52, -400.09, -347.88, 451.52, -417.12, -347.88, 451.52, -434.14, -347.88, 451.52, -451.16, -347.88, 451.52, -468.18, -347.88, 451.52, -485.2, -347.88, 451.52, -502.62, -224.09, 470.86, 502.42, -224.09, 470.86, 485.4, -224.09, 470.86, 468.38, -224.09, 470.86, 451.36, -224.09, 470.86, 434.34, -224.09, 470.86, 417.32, -224.09, 470.86, 400.3, -224.09, 470.86, 383.28, -224.09, 470.86, 366.26, -224.09, 470.86, 349.24, -224.09, 470.86, 332.22, -224.09, 470.86, 315.2, -224.09, 470.86, 298.18, -224.09, 470.86, 281.15, -224.09, 470.86, 264.13, -224.09, 470.86, 247.11, -224.09, 470.86, 230.09, -224.09, 470.86, 213.07, -224.09, 470.86, 196.05, -224.09, 470.86, 179.03, -224.09, 470.86, 162.01, -224.09, 470.86, 144.99, -224.09, 470.86, 127.97, -224.09, 470.86, 110.95, -224.09, 470.86, 93.93, -224.09, 470.86, 76.91, -224.09, 470.86, 59.89, -224.09, 470.86, 42.86, -224.09, 470.86, 25.84, -224.09, 470.86, 8.82, -224.09, 470.86, -8.2, -224.09, 470.86, -25.22, -224.09, 470.86, -42.24, -224.09, 470.86, -59.26, -224.09, 470.86, -76.28, -224.09, 470.86, -93.3, -224.09, 470.86, -110.32, -224.09, 470.86, -127.34, -224.09, 470.86, -144.36, -224.09, 470.86, -161.38, -224.09, 470.86, -178.41, -224.09, 470.86, -195.43, -224.09, 470.86, -212.45, -224.09, 470.86, -229.47, -224.09, 470.86, -246.49, -224.09, 470.86, -263.51, -224.09, 470.86, -280.53, -224.09, 470.86, -297.55, -224.09, 470.86, -314.57, -224.09, 470.86, -331.59, -224.09, 470.86, -348.61, -224.09, 470.86, -365.63, -224.09, 470.86, -382.65, -224.09, 470.86, -399.68, -224.09, 470.86, -416.7, -224.09, 470.86, -433.72, -224.09, 470.86, -450.74, -224.09, 470.86, -467.76, -224.09, 470.86, -484.78, -224.09, 470.86, -501.8, -101.06, 490.22, 501.49, -101.06, 490.22, 484.46, -101.06, 490.22, 467.44, -101.06, 490.22, 450.42, -101.06, 490.22, 433.4, -101.06, 490.22, 416.38, -101.06, 490.22, 399.36, -101.06, 490.22, 382.34, -101.06, 490.22, 365.32, -101.06, 490.22, 348.3, -101.06, 490.22, 331.28, -101.06, 490.22, 314.26, -101.06, 490.22, 297.24, -101.06, 490.22, 280.22, -101.06, 490.22, 263.19, -101.06, 490.22, 246.17, -101.06, 490.22, 229.15, -101.06, 490.22, 212.13, -101.06, 490.22, 195.11, -101.06, 490.22, 178.09, -101.06, 490.22, 161.07, -101.06, 490.22, 144.05, -101.06, 490.22, 127.03, -101.06, 490.22, 110.01, -101.06, 490.22, 92.99, -101.06, 490.22, 75.97, -101.06, 490.22, 58.95, -101.06, 490.22, 41.92, -101.06, 490.22, 24.9, -101.06, 490.22, 7.88, -101.06, 490.22, -9.14, -101.06, 490.22, -26.16, -101.06, 490.22, -43.18, -101.06, 490.22, -60.2, -101.06, 490.22, -77.22, -101.06, 490.22, -94.24, -101.06, 490.22, -111.26, -101.06, 490.22, -128.28, -101.06, 490.22, -145.3, -101.06, 490.22, -162.32, -101.06, 490.22, -179.34, -101.06, 490.22, -196.37, -101.06, 490.22, -213.39, -101.06, 490.22, -230.41, -101.06, 490.22, -247.43, -101.06, 490.22, -264.45, -101.06, 490.22, -281.47, -101.06, 490.22, -298.49, -101.06, 490.22, -315.51, -101.06, 490.22, -332.53, -101.06, 490.22, -349.55, -101.06, 490.22, -366.57, -101.06, 490.22, -383.59, -101.06, 490.22, -400.61, -101.06, 490.22, -417.64, -101.06, 490.22, -434.66, -101.06, 490.22, -451.68, -101.06, 490.22, -468.7, -101.06, 490.22, -485.72, -101.06, 490.22, -503.24, 22.11, 509.5, 504.66, 22.11, 509.5, 487.64, 22.11, 509.5, 470.62, 22.11, 509.5, 453.6, 22.11, 509.5, 436.58, 22.11, 509.5, 419.56, 22.11, 509.5, 402.54, 22.11, 509.5, 385.52, 22.11, 509.5, 368.5, 22.11, 509.5, 351.48, 22.11, 509.5, 334.46, 22.11, 509.5, 317.44, 22.11, 509.5, 300.42, 22.11, 509.5, 283.39, 22.11, 509.5, 266.37, 22.11, 509.5, 249.35, 22.11, 509.5, 232.33, 22.11, 509.5, 215.31, 22.11, 509.5, 198.29, 22.11, 509.5, 181.27, 22.11, 509.5, 164.25, 22.11, 509.5, 147.23, 22.11, 509.5, 130.21, 22.11, 509.5, 113.19, 22.11, 509.5, 96.17, 22.11, 509.5, 79.15, 22.11, 509.5, 62.13, 22.11, 509.5, 45.1, 22.11, 509.5, 28.08, 22.11, 509.5, 11.06, 22.11, 509.5, -5.96, 22.11, 509.5, -22.98, 22.11, 509.5, -40.0, 22.11, 509.5, -57.02, 22.11, 509.5, -74.04, 22.11, 509.5, -91.06, 22.11, 509.5, -108.08, 22.11, 509.5, -125.1, 22.11, 509.5, -142.12, 22.11, 509.5, -159.14, 22.11, 509.5, -176.17, 22.11, 509.5, -193.19, 22.11, 509.5, -210.21, 22.11, 509.5, -227.23, 22.11, 509.5, -244.25, 22.11, 509.5, -261.27, 22.11, 509.5, -278.29, 22.11, 509.5, -295.31, 22.11, 509.5, -312.33, 22.11, 509.5, -329.35, 22.11, 509.5, -346.37, 22.11, 509.5, -363.39, 22.11, 509.5, -380.41, 22.11, 509.5, -397.44, 22.11, 509.5, -414.46, 22.11, 509.5, -431.48, 22.11, 509.5, -448.5, 22.11, 509.5, -465.52, 22.11, 509.5, -482.54, 22.11, 509.5, -499.56, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
    ]

# IC79 coordinates: shape [10, 10, 60, 3]
X_IC79_coords = np.reshape(X_IC79_coords_flat, [10, 10, 60, 3])

# calculate tensor of noise rates: shape [86, 60]
# Note: non existing DOMs get noise rate of zero!
dom_noise_rates = np.zeros([86, 60])
for s in range(1, 87):
    for om in range(1, 61):
        if (s, om) in dom_noise_rate_dict:
            dom_noise_rates[s-1, om-1] = dom_noise_rate_dict[(s, om)]
        else:
            dom_noise_rates[s-1, om-1] = 0.0
dom_noise_rates[~np.isfinite(dom_noise_rates)] = 0.


# Relative DOM efficiency (DOMs in BadDOMsList set to values 1 or 1.35)
rel_dom_eff = [
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.0, 1.35, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.35, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0, 1.35, 1.0, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
]

# Relative DOM efficiency (with DOMs in BadDOMsList set to zero)
rel_dom_eff_without_bad_doms = [
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.0, 1.35, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.35, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0, 1.35, 1.0, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0],
    [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
    [1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 0.0, 0.0, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35, 1.35],
]

# BadDomsList based off of:
# /cvmfs/icecube.opensciencegrid.org/data/GCD/
# GeoCalibDetectorStatus_AVG_55697-57531_PASS2_SPE_withScaledNoise.i3.gz
# which was used to create most of the egenerator simulation
# Note: ideally the simulation should be created without exclusions
# and then this hardcoding of specific bad DOMs should be removed
bad_doms_mask = np.array(rel_dom_eff_without_bad_doms) != 0.

# Dictionary with hexagonal coordinates for every string
# Assumes the detector is centered around (0,0), which means
# negative indices are possible.
string_hex_coord_dict = {
            1: (-4, -1), 2: (-4, 0), 3: (-4, 1), 4: (-4, 2), 5: (-4, 3),           6: (-4, 4), 7: (-3, -2), 8: (-3, -1), 9: (-3, 0), 10: (-3, 1),           11: (-3, 2), 12: (-3, 3), 13: (-3, 4), 14: (-2, -3), 15: (-2, -2),           16: (-2, -1), 17: (-2, 0), 18: (-2, 1), 19: (-2, 2), 20: (-2, 3),           21: (-2, 4), 22: (-1, -4), 23: (-1, -3), 24: (-1, -2),           25: (-1, -1), 26: (-1, 0), 27: (-1, 1), 28: (-1, 2), 29: (-1, 3),           30: (-1, 4), 31: (0, -5), 32: (0, -4), 33: (0, -3), 34: (0, -2),           35: (0, -1), 36: (0, 0), 37: (0, 1), 38: (0, 2), 39: (0, 3),           40: (0, 4), 41: (1, -5), 42: (1, -4), 43: (1, -3), 44: (1, -2),           45: (1, -1), 46: (1, 0), 47: (1, 1), 48: (1, 2), 49: (1, 3),           50: (1, 4), 51: (2, -5), 52: (2, -4), 53: (2, -3), 54: (2, -2),           55: (2, -1), 56: (2, 0), 57: (2, 1), 58: (2, 2), 59: (2, 3),           60: (3, -5), 61: (3, -4), 62: (3, -3), 63: (3, -2), 64: (3, -1),           65: (3, 0), 66: (3, 1), 67: (3, 2), 68: (4, -5), 69: (4, -4),           70: (4, -3), 71: (4, -2), 72: (4, -1), 73: (4, 0), 74: (4, 1),           75: (5, -5), 76: (5, -4), 77: (5, -3), 78: (5, -2),       }
hex_coord_string_dict = {
    (-4, -1): 1, (-4, 0): 2, (-4, 1): 3, (-4, 2): 4, (-4, 3): 5, (-4, 4): 6,   (-3, -2): 7, (-3, -1): 8, (-3, 0): 9, (-3, 1): 10, (-3, 2): 11,   (-3, 3): 12, (-3, 4): 13, (-2, -3): 14, (-2, -2): 15, (-2, -1): 16,   (-2, 0): 17, (-2, 1): 18, (-2, 2): 19, (-2, 3): 20, (-2, 4): 21,   (-1, -4): 22, (-1, -3): 23, (-1, -2): 24, (-1, -1): 25, (-1, 0): 26,   (-1, 1): 27, (-1, 2): 28, (-1, 3): 29, (-1, 4): 30, (0, -5): 31,   (0, -4): 32, (0, -3): 33, (0, -2): 34, (0, -1): 35, (0, 0): 36, (0, 1): 37,   (0, 2): 38, (0, 3): 39, (0, 4): 40, (1, -5): 41, (1, -4): 42, (1, -3): 43,   (1, -2): 44, (1, -1): 45, (1, 0): 46, (1, 1): 47, (1, 2): 48, (1, 3): 49,   (1, 4): 50, (2, -5): 51, (2, -4): 52, (2, -3): 53, (2, -2): 54,   (2, -1): 55, (2, 0): 56, (2, 1): 57, (2, 2): 58, (2, 3): 59, (3, -5): 60,   (3, -4): 61, (3, -3): 62, (3, -2): 63, (3, -1): 64, (3, 0): 65, (3, 1): 66,   (3, 2): 67, (4, -5): 68, (4, -4): 69, (4, -3): 70, (4, -2): 71,   (4, -1): 72, (4, 0): 73, (4, 1): 74, (5, -5): 75, (5, -4): 76, (5, -3): 77,   (5, -2): 78,
}


def get_matrix_indices(string):
    hex_a, hex_b = string_hex_coord_dict[string]
    # string 36 is in center of hex grid: (0,0)
    # To convert to matrix indices, we need to
    # correct for this, e.g. add 4 and 5.
    return hex_a + 4, hex_b + 5


def get_dom_coords(string, dom):
    """Get Coordinates of a DOM specified by the string and dom number.

    Parameters
    ----------
    string : int
        String number (between 1 and 86)
    dom : int
        DOM number (between 1 and 60)

    Returns
    -------
    tuple(float, float, float)
        The x, y, z coordinates of the DOM.
    """
    assert string > 0 and string <= 86, 'String must be within [1, 86]'
    assert dom > 0 and dom <= 60, 'DOM must be within [1, 86]'
    a, b = get_matrix_indices(string)
    dom_id = dom - 1
    return X_IC79_coords[a, b, dom_id]


# light speed in ice in ns/meter
c_in_ice = 0.22103046286329384

# Get masks for real DOMs
IC79_real_DOMs_mask = np.zeros((10, 10, 60), dtype=bool)
for string, (a, b) in string_hex_coord_dict.items():
    IC79_real_DOMs_mask[a+4, b+5, :] = True
