// generated by tools/calibrate_c23.py
static const float c23_limits[20*2*5*2*4] = {
0.63,0.63,0.62,0.65,0.63,0.61,0.64,0.62,0.82,0.9,1.04,1.07,0.86,1.02,1.0,1.15,2.06,3.25,4.12,9.26,2.14,2.94,4.04,9.81,6.01,13.41,32.86,79.75,5.91,12.62,32.64,79.86,38.56,0,0,0,36.57,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.62,0.63,0.62,0.62,0.64,0.65,0.65,0.66,0.79,0.99,0.99,1.08,0.87,0.96,1.03,1.07,2.05,3.06,4.09,10.07,1.94,2.99,4.16,9.2,5.88,12.66,33.26,78.95,5.96,13.48,33.24,79.45,38.52,0,0,0,36.57,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.47,0.42,0.46,0.47,0.43,0.45,0.45,0.44,1.03,0.73,0.75,0.66,1.14,0.62,0.72,0.77,1.33,3.16,3.67,5.28,1.13,3.22,3.54,5.1,5.99,13.34,39.9,82.45,5.95,12.77,38.42,84.26,37.85,0,0,0,35.75,0,0,0,
0.45,0.44,0.44,0.45,0.42,0.45,0.46,0.5,1.02,0.77,0.68,0.73,0.98,0.68,0.71,0.86,1.27,3.01,3.45,6.12,1.21,3.14,3.4,5.07,5.97,13.51,36.81,79.96,6.08,12.66,36.18,84.13,77.75,0,0,0,75.49,0,0,0,
0.55,0.52,0.52,0.57,0.43,0.55,0.57,0.57,1.04,1.24,1.46,2.21,1.2,1.21,1.6,2.09,1.32,3.14,4.77,9.02,1.4,3.07,4.37,9.43,5.83,13.18,32.47,81.42,6.01,12.73,34.97,80.77,37.85,0,0,0,35.8,0,0,0,
0.54,0.54,0.53,0.56,0.48,0.54,0.57,0.6,1.02,1.46,1.96,3.82,1.42,1.62,1.73,3.68,1.4,3.33,5.61,10.64,1.44,3.19,5.55,10.83,5.92,12.94,34.59,79.69,5.91,12.75,36.43,81.43,77.77,0,0,0,75.42,0,0,0,
0.55,0.52,0.5,0.52,0.53,0.53,0.53,0.51,1.15,1.87,2.25,2.39,1.11,1.92,2.25,2.12,1.39,2.33,3.73,9.15,1.32,2.82,3.79,9.03,5.73,13.43,45.17,85.22,5.75,13.85,45.84,85.07,37.5,0,0,0,35.53,0,0,0,
0.55,0.52,0.52,0.5,0.52,0.54,0.5,0.49,1.16,1.85,2.3,2.38,1.16,1.89,2.29,2.21,1.34,2.39,4.13,9.07,1.35,2.42,3.88,9.28,5.57,14.18,40.38,85.42,5.8,13.72,42.2,86.25,77.4,0,0,0,75.02,0,0,0,
0.7,0.68,0.68,0.67,0.66,0.7,0.67,0.68,5.15,9.8,18.26,18.86,2.0,3.84,7.65,8.08,4.99,10.16,21.2,19.78,1.92,3.13,4.05,3.67,10.45,22.33,54.81,54.5,5.11,11.2,27.83,27.46,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.52,0.56,0.55,0.55,0.56,0.58,0.53,0.55,4.58,8.96,17.02,27.76,2.2,3.62,6.78,0,4.39,10.71,18.82,36.69,1.16,2.42,3.87,8.47,10.99,28.0,72.51,93.22,5.14,11.92,37.22,81.4,38.91,0,0,0,40.48,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.41,0.42,0.39,0.41,0.41,0.4,0.4,0.41,1.64,1.98,2.64,2.9,1.6,2.03,2.63,3.34,1.72,3.17,3.31,4.96,1.74,3.21,3.39,5.04,6.08,13.61,38.78,84.74,6.18,13.48,36.87,84.34,37.33,0,0,0,35.36,0,0,0,
0.43,0.43,0.41,0.41,0.41,0.4,0.4,0.41,1.62,2.08,2.68,2.81,1.55,2.02,2.65,2.6,1.66,2.91,3.51,4.93,1.75,2.95,3.6,5.12,6.07,13.26,37.66,83.45,6.32,13.95,38.21,82.81,77.36,0,0,0,74.98,0,0,0,
0.43,0.43,0.42,0.43,0.46,0.45,0.47,0.44,3.48,3.85,4.12,4.29,0,0,0,0,6.47,9.11,16.7,38.97,6.09,5.14,5.72,10.75,36.91,54.27,86.69,81.98,16.1,21.59,57.77,87.64,39.85,0,0,0,36.78,0,0,0,
0.43,0.43,0.44,0.44,1.16,1.17,1.13,1.2,3.61,3.57,4.19,4.32,2.56,2.66,2.86,2.93,6.47,8.09,16.6,34.27,5.25,6.33,5.41,11.19,38.37,53.35,87.53,92.45,16.31,20.76,58.63,87.85,79.79,0,0,0,76.92,0,0,0,
0.42,0.46,0.45,0.46,0.47,0.47,0.46,0.48,0,0,17.84,26.4,0,0,0,0,6.91,11.22,18.83,34.3,5.1,5.01,4.92,8.78,25.97,39.33,77.05,91.43,13.72,17.09,46.92,83.85,38.18,0,0,0,35.51,0,0,0,
0.45,0.47,0.45,0.45,0.49,0.49,0.46,0.48,0,13.17,20.27,27.26,3.31,4.53,6.65,0,6.88,11.2,19.2,32.31,4.55,5.16,4.79,8.44,26.34,38.93,75.61,91.88,14.01,18.02,45.72,82.0,45.51,0,0,0,41.65,0,0,0,
0.4,0.4,0.41,0.4,0.43,0.42,0.42,0.42,6.69,7.64,0,6.37,0,0,0,6.67,5.96,8.11,15.45,32.02,5.4,4.59,5.32,10.77,23.02,43.7,81.93,72.49,9.47,17.7,44.83,86.17,37.42,0,0,0,35.52,0,0,0,
0.41,0.41,0.41,0.41,2.39,2.37,2.36,2.38,9.09,4.37,4.54,4.6,18.1,0,3.05,2.79,6.69,8.43,15.27,31.9,6.73,5.31,5.19,10.9,23.53,43.2,83.57,90.93,9.83,16.98,47.52,86.59,77.39,0,0,0,76.24,0,0,0,
0.41,0.43,0.41,0.42,0.44,0.44,0.42,0.44,0,11.77,0,23.57,0,0,0,0,5.96,10.8,18.02,33.26,4.62,4.56,4.32,9.06,14.82,27.85,67.88,92.19,7.42,14.6,37.41,78.12,38.72,0,0,0,35.52,0,0,0,
0.43,0.41,0.43,0.43,2.38,2.4,2.35,2.37,8.02,9.65,14.52,24.83,5.3,5.4,6.23,0,6.81,10.42,18.04,31.38,6.13,5.71,4.29,9.46,14.41,29.36,66.72,93.08,7.99,14.52,37.24,79.8,78.67,0,0,0,76.16,0,0,0,
0.42,0.41,0.39,0.42,0.41,0.4,0.43,0.43,37.85,37.84,37.95,37.89,37.04,37.05,37.29,37.07,23.44,26.44,26.08,31.62,20.83,19.71,18.42,19.45,18.76,27.94,66.26,92.11,18.92,19.65,38.64,79.85,38.69,0,0,0,35.49,0,0,0,
0.43,0.41,0.42,0.42,2.37,2.35,2.4,2.43,69.94,69.66,69.43,69.13,76.91,76.92,76.9,76.78,24.58,24.82,27.32,35.26,22.02,21.6,20.59,25.39,18.96,28.77,65.49,92.97,18.89,19.79,40.21,80.22,78.63,0,0,0,76.2,0,0,0,
0.41,0.4,0.41,0.42,0.42,0.42,0.41,0.41,8.03,8.81,5.74,0,0,15.14,5.47,0,5.46,4.21,6.9,14.02,5.15,5.18,4.3,9.48,35.59,41.58,53.5,54.96,8.21,14.05,37.31,80.73,37.4,0,0,0,35.5,0,0,0,
0.41,0.4,0.42,0.42,2.38,2.39,2.39,2.36,9.16,0,3.46,2.92,13.76,0,2.89,2.22,6.94,4.79,8.24,13.01,6.17,6.18,4.39,9.21,66.7,72.22,83.6,86.48,8.25,13.18,37.77,79.6,77.35,0,0,0,76.2,0,0,0,
0.44,0.46,0.44,0.43,0.46,0.46,0.44,0.45,1.6,2.01,2.18,2.25,1.09,1.86,1.98,2.27,2.16,3.18,7.43,13.95,1.44,2.51,4.41,9.06,34.25,43.56,51.99,55.48,6.49,14.17,31.02,81.57,37.37,0,0,0,35.53,0,0,0,
0.45,0.45,0.43,0.43,0.48,0.46,0.56,0.47,1.9,2.38,2.13,2.24,1.56,1.98,2.04,2.12,2.4,3.22,7.64,13.42,1.21,2.51,4.21,9.32,65.76,73.9,83.03,86.72,6.48,14.96,34.96,79.52,77.3,0,0,0,76.21,0,0,0,
0.4,0.41,0.4,0.42,0.41,0.42,0.43,0.42,5.86,4.91,0,0,0,0,0,0,3.65,2.52,4.93,8.42,4.17,2.63,3.09,6.83,34.75,40.52,51.39,54.84,6.67,12.42,35.81,71.83,38.42,0,0,0,35.54,0,0,0,
0.41,0.4,0.42,0.42,2.37,2.4,2.36,2.35,4.2,3.46,2.72,1.65,0,3.28,1.35,1.3,4.48,2.95,4.29,9.37,5.13,3.53,2.82,6.49,65.91,70.23,83.06,86.03,6.56,11.37,34.96,74.85,78.41,0,0,0,76.28,0,0,0,
0.34,0.34,0.34,0.34,0.34,0.34,0.35,0.34,42.39,52.96,49.69,50.5,36.04,36.0,36.28,36.08,17.27,17.78,20.48,28.02,36.47,36.52,36.54,36.09,41.68,41.61,47.64,49.01,40.63,40.17,39.87,60.01,38.98,0,0,0,36.15,0,0,0,
0.35,0.35,0.34,0.35,0.36,0.36,0.37,0.35,0,0,0,0,0,75.69,0,0,17.46,16.44,21.48,31.62,71.33,60.12,57.68,61.45,72.39,74.07,79.91,82.48,41.91,41.07,42.34,59.22,78.95,0,0,0,76.31,0,0,0,
0.36,0.37,0.36,0.4,0.37,0.37,0.37,1.56,19.16,21.86,0,30.74,6.39,7.16,7.02,5.47,6.31,9.51,20.9,32.15,6.08,4.69,3.8,3.98,39.16,41.25,48.24,48.66,7.66,12.29,26.83,60.61,38.58,0,0,0,36.14,0,0,0,
0.36,0.36,0.37,0.37,0.37,0.37,0.39,0.36,19.7,22.11,36.0,31.89,5.75,4.59,3.66,3.94,6.79,11.19,18.04,26.12,5.51,4.11,3.36,4.47,70.17,73.55,79.97,82.23,7.64,12.56,27.47,61.93,78.55,0,0,0,76.31,0,0,0,
0.33,0.34,0.33,0.33,0.34,0.34,0.34,0.35,3.92,4.19,3.78,4.38,5.47,5.6,4.49,3.57,5.3,4.48,3.8,7.17,5.79,5.08,3.95,3.84,35.3,38.85,46.58,48.7,8.25,10.97,22.9,61.28,37.26,0,0,0,36.14,0,0,0,
0.34,0.34,0.34,0.34,0.35,0.35,0.36,0.35,4.0,3.96,3.71,3.69,5.0,5.14,5.41,3.29,5.78,4.57,3.91,7.83,6.25,5.76,4.68,3.88,69.25,73.38,78.63,81.01,8.4,10.4,21.06,62.87,77.26,0,0,0,76.34,0,0,0,
0.37,0.36,0.35,0.36,0.37,0.37,0.37,0.36,0,22.47,26.38,45.37,0,4.31,5.46,8.66,7.02,14.05,26.02,51.85,3.34,4.77,8.64,14.15,23.37,28.17,44.87,70.04,4.87,10.22,20.18,48.6,38.57,0,0,0,36.16,0,0,0,
0.36,0.37,0.36,0.37,0.38,0.37,0.37,0.37,0,16.9,26.53,46.35,0,7.38,6.04,9.09,6.8,12.55,24.86,47.27,3.13,5.44,8.54,14.99,38.54,43.07,61.53,82.87,4.81,10.0,19.93,50.0,78.57,0,0,0,76.32,0,0,0,
};
