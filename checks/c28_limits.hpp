// generated by tools/calibrate_c28.py: start-up cost and cost per value
static const double c28_limits[192][4][2] = {
{{3.15714e+06,347},{7.27606e+07,258.5},{790528,155.1},{6.64614e+07,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{6.549e+06,399.3},{1.46557e+08,224.8},{1.57708e+06,168.3},{1.33314e+08,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{6.54878e+06,388},{1.46678e+08,226.8},{1.57704e+06,156.1},{1.33434e+08,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.10786e+06,368.1},{4.851e+07,364.6},{528320,162.2},{4.43106e+07,275.7}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.107e+06,353.7},{4.85184e+07,677},{528174,162.6},{4.43198e+07,542.9}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{1.05751e+06,344.5},{2.4271e+07,458.2},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{1.05955e+06,314.8},{2.42762e+07,731.5},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{3.15922e+06,380.6},{7.27602e+07,313.8},{791160,161},{6.64582e+07,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.11018e+06,413.5},{4.85122e+07,423.3},{529020,175.5},{4.43132e+07,163.5}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{4.24632e+06,614.5},{9.7773e+07,456.8},{1.06227e+06,182},{8.93044e+07,187.7}},
{{4.24472e+06,639.7},{9.77718e+07,454},{1.06167e+06,182.9},{8.93052e+07,188.4}},
{{2.15126e+06,645.3},{4.92696e+07,333.8},{537774,178.7},{4.49988e+07,98.5}},
{{2.15148e+06,711},{4.92684e+07,319.3},{537882,201.3},{4.49994e+07,122}},
{{2.16586e+06,1220},{4.92688e+07,331.8},{537988,200.6},{4.49998e+07,122.4}},
{{2.14852e+06,527.5},{4.92692e+07,307.2},{536818,181.9},{4.49986e+07,97.5}},
{{2.15044e+06,684.5},{4.92708e+07,343.6},{536810,178.6},{4.49984e+07,102.5}},
{{2.1495e+06,633.2},{4.92676e+07,306.8},{536380,143.5},{4.49984e+07,97.1}},
{{4.24814e+06,602},{9.77784e+07,577.5},{1.06235e+06,184.4},{8.931e+07,295}},
{{4.24782e+06,614.6},{9.77766e+07,516.9},{1.06162e+06,186.6},{8.93102e+07,290.7}},
{{2.15196e+06,621.5},{4.92706e+07,349.6},{537774,178.6},{4.50002e+07,128.4}},
{{2.1519e+06,727.8},{4.92684e+07,345.3},{537714,201.5},{4.5001e+07,151.9}},
{{2.1672e+06,1246},{4.92698e+07,356.9},{537962,200.2},{4.5001e+07,152.3}},
{{2.1476e+06,558.4},{4.92694e+07,340.1},{536508,181.9},{4.49996e+07,122.6}},
{{2.1534e+06,720.1},{4.92704e+07,334.7},{537478,184},{4.50002e+07,130.3}},
{{2.14904e+06,570},{4.92708e+07,313},{536674,161.8},{4.49998e+07,125.6}},
{{2.12288e+06,810.1},{4.8699e+07,285.7},{531692,191.5},{4.44798e+07,107}},
{{2.13604e+06,1502.6},{4.87008e+07,273.7},{531358,182.3},{4.44798e+07,103.1}},
{{2.16432e+06,2053.7},{4.9266e+07,290.2},{536668,159.4},{4.49986e+07,105.1}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.1218e+06,840},{4.86992e+07,323.9},{531364,186.5},{4.44814e+07,147.1}},
{{2.13572e+06,1511},{4.86994e+07,298.7},{531358,179},{4.44812e+07,145}},
{{2.16422e+06,2172.5},{4.9266e+07,299.4},{536722,173.4},{4.50002e+07,143.7}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.11704e+06,404.2},{4.87008e+07,379.1},{530512,184},{4.44848e+07,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.11794e+06,415.7},{4.87026e+07,396},{530854,183.8},{4.44846e+07,113.2}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.107e+06,443.2},{4.85072e+07,317.7},{527714,170.1},{4.43052e+07,101.9}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{2.10682e+06,371.8},{4.85044e+07,220.1},{527654,139.9},{4.43052e+07,90}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}},
{{0,0},{0,0},{0,0},{0,0}}
};
