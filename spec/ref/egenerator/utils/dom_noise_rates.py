
"""
DOM noise rates in Hz taken from:
 /cvmfs/icecube.opensciencegrid.org/data/GCD/GeoCalibDetectorStatus_AVG_55697-57531_PASS2_SPE_withScaledNoise.i3.gz
"""

dom_noise_rate_dict = {(1, 1): 5.584060058593751e-07, (1, 2): 6.853499755859375e-07, (1, 3): 5.701069946289063e-07, (1, 4): 6.869030151367188e-07, (1, 5): 7.032579956054688e-07, (1, 6): 6.183519897460938e-07, (1, 7): 7.017039794921876e-07, (1, 8): 5.50156982421875e-07, (1, 9): 6.26906982421875e-07, (1, 10): 7.326069946289063e-07, (1, 11): 7.707520141601563e-07, (1, 12): 5.632069702148438e-07, (1, 13): 5.068999938964844e-07, (1, 14): 6.555040283203125e-07, (1, 15): 6.267059936523438e-07, (1, 16): 6.836539916992188e-07, (1, 17): 7.126539916992188e-07, (1, 18): 6.717069702148438e-07, (1, 19): 5.93155029296875e-07, (1, 20): 6.107069702148438e-07, (1, 21): 6.2875e-07, (1, 22): 6.405089721679687e-07, (1, 23): 5.218090209960937e-07, (1, 24): 5.831069946289063e-07, (1, 25): 6.991060180664062e-07, (1, 26): 5.875079956054688e-07, (1, 27): 7.121560058593751e-07, (1, 28): 5.673590087890626e-07, (1, 29): 6.829019775390625e-07, (1, 30): 5.166010131835938e-07, (1, 31): 6.829080200195313e-07, (1, 32): 7.09552001953125e-07, (1, 33): 5.584520263671876e-07, (1, 34): 4.845010070800782e-07, (1, 35): 6.148079833984375e-07, (1, 36): 6.457000122070313e-07, (1, 37): 7.163569946289063e-07, (1, 38): 6.022039794921875e-07, (1, 39): 5.989000244140625e-07, (1, 40): 5.4560400390625e-07, (1, 41): 4.961589965820313e-07, (1, 42): 5.300499877929688e-07, (1, 43): 5.92552978515625e-07, (1, 44): 5.848579711914063e-07, (1, 45): 7.276519775390626e-07, (1, 46): 1.2000000476837158e-09, (1, 47): 5.670560302734376e-07, (1, 48): 5.737529907226563e-07, (1, 49): 6.022059936523438e-07, (1, 50): 6.874580078125001e-07, (1, 51): 6.310070190429688e-07, (1, 52): 6.742570190429688e-07, (1, 53): 6.210549926757813e-07, (1, 54): 5.854509887695313e-07, (1, 55): 8.567529907226563e-07, (1, 56): 6.071049804687501e-07, (1, 57): 7.118579711914063e-07, (1, 58): 7.184080200195313e-07, (1, 59): 8.468560180664063e-07, (1, 60): 8.73e-07, (2, 1): 5.991539916992188e-07, (2, 2): 5.875029907226563e-07, (2, 3): 6.095079956054688e-07, (2, 4): 5.549000244140626e-07, (2, 5): 6.095009765625001e-07, (2, 6): 5.754030151367188e-07, (2, 7): 6.3435400390625e-07, (2, 8): 5.601079711914063e-07, (2, 9): 6.214569702148437e-07, (2, 10): 5.990040283203125e-07, (2, 11): 5.357020263671876e-07, (2, 12): 5.745040283203126e-07, (2, 13): 6.33458984375e-07, (2, 14): 5.587509765625001e-07, (2, 15): 5.225570068359375e-07, (2, 16): 5.642559814453126e-07, (2, 17): 5.954580078125e-07, (2, 18): 6.6110400390625e-07, (2, 19): 4.860060119628906e-07, (2, 20): 5.418070068359375e-07, (2, 21): 5.945499877929688e-07, (2, 22): 5.6675e-07, (2, 23): 6.529500122070313e-07, (2, 24): 5.08802001953125e-07, (2, 25): 5.222059936523438e-07, (2, 26): 5.602550048828126e-07, (2, 27): 6.122999877929687e-07, (2, 28): 5.759569702148438e-07, (2, 29): 4.862019958496094e-07, (2, 30): 5.226010131835938e-07, (2, 31): 6.051519775390626e-07, (2, 32): 5.186589965820313e-07, (2, 33): 6.045529785156251e-07, (2, 34): 5.0075e-07, (2, 35): 4.817030029296876e-07, (2, 36): 5.246530151367188e-07, (2, 37): 5.404030151367188e-07, (2, 38): 5.346500244140625e-07, (2, 39): 5.071499938964844e-07, (2, 40): 5.243040161132813e-07, (2, 41): 4.151029968261719e-07, (2, 42): 4.639590148925782e-07, (2, 43): 4.3010598754882815e-07, (2, 44): 4.310549926757813e-07, (2, 45): 5.4135400390625e-07, (2, 46): 4.609049987792969e-07, (2, 47): 4.698580017089844e-07, (2, 48): 5.075039978027344e-07, (2, 49): 4.813049926757813e-07, (2, 50): 5.096510009765625e-07, (2, 51): 5.410020141601562e-07, (2, 52): 4.852070007324219e-07, (2, 53): 5.110090026855469e-07, (2, 54): 4.6125601196289067e-07, (2, 55): 5.009570007324219e-07, (2, 56): 4.6070498657226565e-07, (2, 57): 4.892090148925781e-07, (2, 58): 5.711010131835938e-07, (2, 59): 4.5095901489257815e-07, (2, 60): 4.441029968261719e-07, (3, 1): 6.169500122070313e-07, (3, 2): 5.234539794921875e-07, (3, 3): 6.260499877929688e-07, (3, 4): 7.456010131835938e-07, (3, 5): 5.884520263671875e-07, (3, 6): 5.240999755859375e-07, (3, 7): 5.754080200195313e-07, (3, 8): 5.687050170898438e-07, (3, 9): 5.47406982421875e-07, (3, 10): 5.345e-07, (3, 11): 6.1785498046875e-07, (3, 12): 5.926530151367188e-07, (3, 13): 6.833090209960938e-07, (3, 14): 4.75302001953125e-07, (3, 15): 5.63708984375e-07, (3, 16): 6.539569702148437e-07, (3, 17): 5.799539794921875e-07, (3, 18): 5.714019775390626e-07, (3, 19): 6.342509765625e-07, (3, 20): 5.332550048828126e-07, (3, 21): 6.470570068359376e-07, (3, 22): 5.207520141601563e-07, (3, 23): 5.622570190429688e-07, (3, 24): 6.992550048828125e-07, (3, 25): 4.7520800781250005e-07, (3, 26): 5.420540161132813e-07, (3, 27): 5.967020263671875e-07, (3, 28): 4.933089904785157e-07, (3, 29): 4.682999877929688e-07, (3, 30): 5.1860400390625e-07, (3, 31): 5.867579956054688e-07, (3, 32): 4.1640798950195317e-07, (3, 33): 5.722570190429688e-07, (3, 34): 4.4180499267578126e-07, (3, 35): 5.523040161132813e-07, (3, 36): 4.809060058593751e-07, (3, 37): 5.134580078125e-07, (3, 38): 6.167009887695313e-07, (3, 39): 5.45958984375e-07, (3, 40): 5.319550170898438e-07, (3, 41): 5.704019775390625e-07, (3, 42): 4.1145098876953126e-07, (3, 43): 4.4080700683593754e-07, (3, 44): 4.773059997558594e-07, (3, 45): 6.064019775390626e-07, (3, 46): 4.7580499267578127e-07, (3, 47): 5.378590087890626e-07, (3, 48): 5.394539794921876e-07, (3, 49): 5.488010253906251e-07, (3, 50): 5.4410498046875e-07, (3, 51): 6.5175e-07, (3, 52): 5.331560058593751e-07, (3, 53): 5.435570068359375e-07, (3, 54): 5.004020080566407e-07, (3, 55): 4.660090026855469e-07, (3, 56): 5.90655029296875e-07, (3, 57): 6.546530151367188e-07, (3, 58): 4.3345901489257816e-07, (3, 59): 4.840069885253907e-07, (3, 60): 4.5300601196289063e-07, (4, 1): 5.760549926757813e-07, (4, 2): 5.636530151367188e-07, (4, 3): 5.4360302734375e-07, (4, 4): 6.378510131835938e-07, (4, 5): 5.486519775390626e-07, (4, 6): 5.319000244140626e-07, (4, 7): 5.113519897460938e-07, (4, 8): 5.520029907226563e-07, (4, 9): 5.066050109863282e-07, (4, 10): 4.903519897460937e-07, (4, 11): 4.943569946289062e-07, (4, 12): 5.113500061035157e-07, (4, 13): 6.480579833984376e-07, (4, 14): 5.296030273437501e-07, (4, 15): 5.294569702148438e-07, (4, 16): 5.042080078125001e-07, (4, 17): 5.715040283203126e-07, (4, 18): 5.735499877929688e-07, (4, 19): 5.238569946289063e-07, (4, 20): 4.993089904785156e-07, (4, 21): 4.5415100097656255e-07, (4, 22): 5.19406982421875e-07, (4, 23): 4.773500061035157e-07, (4, 24): 5.475999755859376e-07, (4, 25): 4.98156005859375e-07, (4, 26): 6.102570190429688e-07, (4, 27): 4.784570007324219e-07, (4, 28): 5.770079956054688e-07, (4, 29): 4.878500061035156e-07, (4, 30): 5.174039916992188e-07, (4, 31): 4.792520141601563e-07, (4, 32): 4.6255398559570316e-07, (4, 33): 5.06156005859375e-07, (4, 34): 4.724590148925782e-07, (4, 35): 4.864020080566407e-07, (4, 36): 4.642030029296875e-07, (4, 37): 5.254569702148438e-07, (4, 38): 4.4980398559570315e-07, (4, 39): 4.7175601196289066e-07, (4, 40): 4.951059875488282e-07, (4, 41): 4.828590087890626e-07, (4, 42): 4.743059997558594e-07, (4, 43): 5.364030151367187e-07, (4, 44): 4.521510009765625e-07, (4, 45): 5.209039916992187e-07, (4, 46): 4.794060058593751e-07, (4, 47): 4.803519897460938e-07, (4, 48): 5.523560180664063e-07, (4, 49): 5.476010131835938e-07, (4, 50): 4.1875100708007814e-07, (4, 51): 5.118030090332032e-07, (4, 52): 4.730079956054688e-07, (4, 53): 4.790090026855469e-07, (4, 54): 4.6770498657226564e-07, (4, 55): 4.776069946289062e-07, (4, 56): 4.6290600585937503e-07, (4, 57): 4.855589904785157e-07, (4, 58): 4.770069885253907e-07, (4, 59): 4.4490200805664067e-07, (4, 60): 4.823569946289063e-07, (5, 1): 4.890060119628906e-07, (5, 2): 6.136539916992188e-07, (5, 3): 6.408590087890626e-07, (5, 4): 5.596580200195313e-07, (5, 5): 5.94708984375e-07, (5, 6): 5.70655029296875e-07, (5, 7): 6.504550170898438e-07, (5, 8): 4.936059875488282e-07, (5, 9): 5.101000061035157e-07, (5, 10): 6.175520019531251e-07, (5, 11): 6.005560302734376e-07, (5, 12): 6.014080200195313e-07, (5, 13): 6.154019775390625e-07, (5, 14): 6.582999877929688e-07, (5, 15): 5.937009887695312e-07, (5, 16): 5.633060302734375e-07, (5, 17): 6.096019897460938e-07, (5, 18): 7.115590209960938e-07, (5, 19): 5.372039794921875e-07, (5, 20): 5.210079956054687e-07, (5, 23): 6.076580200195313e-07, (5, 24): 4.6790301513671877e-07, (5, 25): 5.187540283203125e-07, (5, 26): 5.425040283203125e-07, (5, 27): 4.8135400390625e-07, (5, 28): 5.891510009765625e-07, (5, 29): 6.022520141601563e-07, (5, 30): 5.533049926757813e-07, (5, 31): 5.26656005859375e-07, (5, 32): 6.317509765625e-07, (5, 33): 5.761019897460938e-07, (5, 34): 5.284550170898438e-07, (5, 35): 5.206530151367188e-07, (5, 36): 5.032510070800781e-07, (5, 37): 5.495579833984376e-07, (5, 38): 6.303079833984375e-07, (5, 39): 5.703549804687501e-07, (5, 40): 4.5380300903320317e-07, (5, 41): 5.089079895019532e-07, (5, 42): 5.566589965820313e-07, (5, 43): 5.607550048828125e-07, (5, 44): 5.405579833984375e-07, (5, 45): 4.6855300903320317e-07, (5, 46): 5.131569824218751e-07, (5, 47): 4.5915701293945314e-07, (5, 48): 5.063590087890625e-07, (5, 49): 5.566030273437501e-07, (5, 50): 5.133090209960938e-07, (5, 51): 5.035580139160156e-07, (5, 52): 5.40208984375e-07, (5, 53): 4.628009948730469e-07, (5, 54): 4.4935400390625e-07, (5, 55): 4.5265399169921875e-07, (5, 56): 4.61e-07, (5, 57): 6.311019897460938e-07, (5, 58): 5.835029907226563e-07, (5, 59): 4.4415100097656254e-07, (5, 60): 4.433580017089844e-07, (6, 1): 7.045549926757813e-07, (6, 2): 6.789550170898438e-07, (6, 3): 5.435560302734375e-07, (6, 4): 5.853569946289063e-07, (6, 5): 6.9085302734375e-07, (6, 6): 5.399580078125e-07, (6, 7): 5.880540161132813e-07, (6, 8): 5.592030029296875e-07, (6, 9): 5.594039916992188e-07, (6, 10): 6.199089965820313e-07, (6, 11): 5.634000244140625e-07, (6, 12): 6.748090209960938e-07, (6, 13): 5.771500244140626e-07, (6, 14): 6.170020141601563e-07, (6, 15): 6.207030029296875e-07, (6, 16): 4.804530029296876e-07, (6, 17): 6.083070068359375e-07, (6, 18): 6.114039916992188e-07, (6, 19): 5.777030029296876e-07, (6, 20): 5.976079711914063e-07, (6, 21): 5.817089843750001e-07, (6, 22): 5.46708984375e-07, (6, 23): 5.51552978515625e-07, (6, 24): 5.890570068359376e-07, (6, 25): 5.208070068359375e-07, (6, 26): 6.162009887695312e-07, (6, 27): 5.693499755859375e-07, (6, 28): 5.4860400390625e-07, (6, 29): 5.019500122070313e-07, (6, 30): 6.074089965820313e-07, (6, 31): 5.089070129394532e-07, (6, 32): 4.784530029296875e-07, (6, 33): 5.356019897460937e-07, (6, 34): 5.487579956054688e-07, (6, 35): 5.07102996826172e-07, (6, 36): 5.272529907226563e-07, (6, 37): 5.772000122070313e-07, (6, 38): 5.036530151367188e-07, (6, 39): 5.359580078125e-07, (6, 40): 5.045060119628906e-07, (6, 41): 4.851019897460938e-07, (6, 42): 5.290020141601563e-07, (6, 43): 5.355570068359376e-07, (6, 44): 5.032529907226563e-07, (6, 45): 5.351079711914062e-07, (6, 46): 4.93156005859375e-07, (6, 47): 5.223549804687501e-07, (6, 48): 5.589089965820313e-07, (6, 49): 4.889540100097657e-07, (6, 50): 5.111000061035157e-07, (6, 51): 5.250000000000001e-07, (6, 52): 5.208049926757813e-07, (6, 53): 5.262529907226563e-07, (6, 54): 5.606530151367188e-07, (6, 55): 4.956040039062501e-07, (6, 56): 4.574509887695313e-07, (6, 57): 5.113999938964844e-07, (6, 58): 5.19656982421875e-07, (6, 59): 5.309559936523438e-07, (6, 60): 4.932520141601562e-07, (7, 1): 6.051580200195313e-07, (7, 2): 7.459500122070313e-07, (7, 3): 7.320079956054688e-07, (7, 4): 7.050570068359376e-07, (7, 5): 5.839539794921875e-07, (7, 6): 5.776589965820313e-07, (7, 7): 5.285560302734375e-07, (7, 8): 5.455089721679688e-07, (7, 9): 6.788510131835938e-07, (7, 10): 5.865520019531251e-07, (7, 11): 7.046069946289062e-07, (7, 12): 5.028009948730469e-07, (7, 13): 6.41156982421875e-07, (7, 14): 5.704539794921876e-07, (7, 15): 6.91906982421875e-07, (7, 16): 5.144039916992188e-07, (7, 17): 6.044500122070313e-07, (7, 18): 4.892520141601563e-07, (7, 19): 7.212000122070313e-07, (7, 20): 6.529010009765626e-07, (7, 21): 5.221500244140626e-07, (7, 22): 7.511530151367188e-07, (7, 23): 6.745579833984375e-07, (7, 24): 7.009580078125e-07, (7, 25): 6.316079711914063e-07, (7, 26): 6.323540039062501e-07, (7, 27): 6.6610302734375e-07, (7, 28): 6.452579956054688e-07, (7, 29): 6.675000000000001e-07, (7, 30): 7.317540283203125e-07, (7, 31): 5.487550048828126e-07, (7, 32): 6.987550048828125e-07, (7, 33): 6.939580078125e-07, (7, 34): 3.6445800781250004e-07, (7, 43): 4.837560119628907e-07, (7, 44): 1.2000000476837158e-09, (7, 47): 7.401079711914063e-07, (7, 48): 5.76802978515625e-07, (7, 49): 5.619520263671875e-07, (7, 50): 7.441019897460938e-07, (7, 51): 5.994080200195313e-07, (7, 52): 6.633549804687501e-07, (7, 53): 6.645009765625001e-07, (7, 54): 5.854000244140625e-07, (7, 55): 6.748079833984376e-07, (7, 56): 6.893530273437501e-07, (7, 57): 7.169530029296875e-07, (7, 58): 7.972030029296875e-07, (7, 59): 7.079060058593751e-07, (7, 60): 7.201500244140625e-07, (8, 1): 5.577579956054688e-07, (8, 2): 6.297520141601563e-07, (8, 3): 7.312080078125001e-07, (8, 4): 5.414509887695312e-07, (8, 5): 5.997500000000001e-07, (8, 6): 5.467000122070313e-07, (8, 7): 4.705029907226563e-07, (8, 8): 5.845050048828125e-07, (8, 9): 5.875029907226563e-07, (8, 10): 4.957059936523438e-07, (8, 11): 5.78e-07, (8, 12): 5.565590209960938e-07, (8, 13): 5.248079833984375e-07, (8, 14): 6.224559936523438e-07, (8, 15): 6.911530151367188e-07, (8, 16): 5.057080078125001e-07, (8, 17): 5.7235400390625e-07, (8, 18): 5.53052001953125e-07, (8, 19): 6.149520263671875e-07, (8, 20): 6.847509765625e-07, (8, 21): 5.462039794921875e-07, (8, 22): 5.272529907226563e-07, (8, 23): 5.240070190429687e-07, (8, 24): 6.810040283203125e-07, (8, 25): 5.123569946289063e-07, (8, 26): 5.971090087890626e-07, (8, 27): 5.994559936523438e-07, (8, 28): 5.517509765625001e-07, (8, 29): 5.119590148925781e-07, (8, 30): 5.700050048828126e-07, (8, 31): 5.174039916992188e-07, (8, 32): 6.204019775390626e-07, (8, 33): 6.054030151367188e-07, (8, 34): 6.34052001953125e-07, (8, 35): 5.637999877929688e-07, (8, 36): 5.889019775390625e-07, (8, 37): 4.3530300903320316e-07, (8, 38): 5.668579711914063e-07, (8, 39): 4.731090087890625e-07, (8, 40): 5.269010009765625e-07, (8, 41): 4.960509948730469e-07, (8, 42): 7.410059814453125e-07, (8, 43): 5.380000000000001e-07, (8, 44): 5.610570068359376e-07, (8, 45): 5.089530029296875e-07, (8, 46): 4.8185400390625e-07, (8, 47): 5.746530151367187e-07, (8, 48): 4.750079956054688e-07, (8, 49): 5.452589721679688e-07, (8, 50): 7.437030029296875e-07, (8, 51): 5.641500244140625e-07, (8, 52): 5.777039794921876e-07, (8, 53): 4.377070007324219e-07, (8, 54): 4.783039855957031e-07, (8, 55): 5.74906982421875e-07, (8, 56): 6.781060180664063e-07, (8, 57): 5.011010131835938e-07, (8, 58): 5.159039916992188e-07, (9, 1): 5.352570190429687e-07, (9, 2): 6.134539794921875e-07, (9, 3): 6.282030029296875e-07, (9, 4): 5.449010009765625e-07, (9, 5): 5.68708984375e-07, (9, 6): 6.138060302734375e-07, (9, 7): 5.840999755859375e-07, (9, 8): 5.240009765625e-07, (9, 9): 6.810020141601563e-07, (9, 10): 5.86156982421875e-07, (9, 11): 5.893060302734376e-07, (9, 12): 5.235020141601563e-07, (9, 13): 7.581060180664063e-07, (9, 14): 5.309010009765625e-07, (9, 17): 5.276539916992188e-07, (9, 18): 5.181500244140626e-07, (9, 19): 6.238499755859376e-07, (9, 20): 5.33655029296875e-07, (9, 21): 6.69156005859375e-07, (9, 22): 5.2025e-07, (9, 23): 5.91802001953125e-07, (9, 24): 6.175079956054688e-07, (9, 25): 5.962570190429688e-07, (9, 26): 5.421049804687501e-07, (9, 27): 5.728079833984375e-07, (9, 28): 5.82708984375e-07, (9, 29): 4.657999877929688e-07, (9, 30): 5.152069702148438e-07, (9, 31): 5.877000122070313e-07, (9, 32): 5.76405029296875e-07, (9, 33): 6.306519775390626e-07, (9, 34): 5.582550048828125e-07, (9, 35): 5.734019775390625e-07, (9, 36): 4.885509948730469e-07, (9, 37): 5.312570190429688e-07, (9, 38): 5.402030029296875e-07, (9, 39): 5.388090209960937e-07, (9, 40): 6.779019775390625e-07, (9, 41): 5.947020263671876e-07, (9, 42): 4.658070068359375e-07, (9, 43): 4.721010131835938e-07, (9, 44): 3.8780300903320314e-07, (9, 45): 4.902049865722657e-07, (9, 46): 5.1460400390625e-07, (9, 47): 5.560540161132812e-07, (9, 48): 5.3125e-07, (9, 49): 5.204520263671875e-07, (9, 50): 5.704010009765625e-07, (9, 51): 5.92802978515625e-07, (9, 52): 5.5110498046875e-07, (9, 53): 5.469069824218751e-07, (9, 54): 6.222509765625001e-07, (9, 55): 4.998510131835938e-07, (9, 56): 4.954590148925782e-07, (9, 57): 8.061069946289063e-07, (9, 58): 6.672069702148438e-07, (9, 59): 6.96155029296875e-07, (9, 60): 6.951560058593751e-07, (10, 1): 4.7185900878906253e-07, (10, 2): 5.113590087890625e-07, (10, 3): 5.659080200195312e-07, (10, 4): 4.843039855957031e-07, (10, 5): 5.190590209960937e-07, (10, 6): 6.350579833984375e-07, (10, 7): 5.918519897460937e-07, (10, 8): 4.920589904785156e-07, (10, 9): 5.570070190429688e-07, (10, 10): 4.5985101318359376e-07, (10, 11): 5.499580078125e-07, (10, 12): 6.670590209960938e-07, (10, 13): 7.0360498046875e-07, (10, 14): 5.827509765625001e-07, (10, 15): 5.64302978515625e-07, (10, 16): 4.847059936523438e-07, (10, 17): 6.005520019531251e-07, (10, 18): 5.935549926757813e-07, (10, 19): 5.364039916992187e-07, (10, 20): 6.120059814453126e-07, (10, 21): 6.932529907226563e-07, (10, 22): 5.323090209960938e-07, (10, 23): 5.698070068359375e-07, (10, 24): 5.70156982421875e-07, (10, 25): 5.152550048828126e-07, (10, 26): 5.659019775390625e-07, (10, 27): 5.2785302734375e-07, (10, 28): 5.470549926757813e-07, (10, 29): 6.232540283203125e-07, (10, 30): 6.238499755859376e-07, (10, 31): 5.270499877929688e-07, (10, 32): 5.812509765625001e-07, (10, 33): 5.342529907226563e-07, (10, 34): 4.868049926757812e-07, (10, 35): 5.103500061035156e-07, (10, 36): 4.8835400390625e-07, (10, 37): 4.833080139160157e-07, (10, 38): 4.799049987792969e-07, (10, 39): 6.28301025390625e-07, (10, 40): 4.1860400390625004e-07, (10, 41): 5.282999877929688e-07, (10, 42): 5.962540283203125e-07, (10, 43): 5.044030151367188e-07, (10, 44): 4.15406005859375e-07, (10, 45): 4.278510131835938e-07, (10, 46): 5.067560119628907e-07, (10, 47): 4.966059875488282e-07, (10, 48): 5.4375e-07, (10, 49): 4.957569885253906e-07, (10, 50): 4.632049865722657e-07, (10, 51): 6.36802978515625e-07, (10, 52): 5.060509948730469e-07, (10, 53): 4.605559997558594e-07, (10, 54): 3.898070068359375e-07, (10, 55): 5.746519775390625e-07, (10, 56): 5.363510131835938e-07, (10, 57): 4.83102996826172e-07, (10, 58): 5.179030151367188e-07, (10, 59): 4.796570129394532e-07, (10, 60): 5.334089965820312e-07, (11, 3): 5.53708984375e-07, (11, 4): 6.606539916992188e-07, (11, 5): 6.536519775390625e-07, (11, 6): 6.483519897460937e-07, (11, 7): 5.705499877929688e-07, (11, 8): 5.502589721679687e-07, (11, 9): 5.082019958496094e-07, (11, 10): 5.271569824218751e-07, (11, 11): 5.172009887695313e-07, (11, 12): 4.861019897460937e-07, (11, 13): 5.199539794921876e-07, (11, 14): 4.779549865722656e-07, (11, 15): 5.30208984375e-07, (11, 16): 5.303090209960937e-07, (11, 17): 5.629569702148438e-07, (11, 18): 5.664559936523438e-07, (11, 19): 5.170560302734375e-07, (11, 20): 5.253560180664063e-07, (11, 21): 5.931079711914063e-07, (11, 22): 6.004539794921875e-07, (11, 23): 5.222529907226563e-07, (11, 24): 6.401510009765625e-07, (11, 25): 5.5260302734375e-07, (11, 26): 6.34208984375e-07, (11, 27): 6.096510009765626e-07, (11, 28): 7.201040039062501e-07, (11, 29): 5.298029785156251e-07, (11, 30): 5.115020141601562e-07, (11, 31): 4.879020080566407e-07, (11, 32): 6.479550170898438e-07, (11, 33): 5.50802978515625e-07, (11, 34): 4.579559936523438e-07, (11, 35): 5.015549926757813e-07, (11, 36): 5.963579711914063e-07, (11, 37): 6.034539794921875e-07, (11, 38): 5.98156982421875e-07, (11, 39): 6.4410400390625e-07, (11, 40): 5.605000000000001e-07, (11, 41): 4.883510131835938e-07, (11, 42): 5.13e-07, (11, 43): 4.841019897460938e-07, (11, 44): 4.830090026855469e-07, (11, 45): 4.901589965820313e-07, (11, 46): 4.787009887695313e-07, (11, 47): 5.290029907226563e-07, (11, 48): 4.667539978027344e-07, (11, 49): 4.491029968261719e-07, (11, 50): 5.358070068359376e-07, (11, 51): 4.652550048828125e-07, (11, 52): 5.282589721679688e-07, (11, 53): 4.6810501098632813e-07, (11, 54): 5.5585400390625e-07, (11, 55): 4.839070129394532e-07, (11, 56): 4.4325601196289064e-07, (11, 57): 4.695039978027344e-07, (11, 58): 4.3430300903320314e-07, (11, 59): 4.902040100097657e-07, (11, 60): 4.759030151367188e-07, (12, 1): 7.122999877929688e-07, (12, 2): 5.217550048828125e-07, (12, 3): 5.560040283203126e-07, (12, 4): 6.590560302734375e-07, (12, 5): 6.584569702148438e-07, (12, 6): 4.4840100097656254e-07, (12, 7): 6.063519897460938e-07, (12, 8): 5.057009887695313e-07, (12, 9): 6.24405029296875e-07, (12, 10): 4.924500122070312e-07, (12, 11): 5.399500122070313e-07, (12, 12): 5.865540161132813e-07, (12, 13): 5.082520141601563e-07, (12, 14): 5.867550048828125e-07, (12, 15): 5.927080078125e-07, (12, 16): 5.557069702148438e-07, (12, 17): 4.6885400390625e-07, (12, 18): 5.546519775390625e-07, (12, 19): 5.621530151367188e-07, (12, 20): 5.465020141601563e-07, (12, 21): 4.6445498657226566e-07, (12, 22): 5.6960302734375e-07, (12, 23): 5.267540283203126e-07, (12, 24): 5.833560180664063e-07, (12, 25): 6.102999877929688e-07, (12, 26): 5.902550048828125e-07, (12, 27): 5.78905029296875e-07, (12, 28): 5.523560180664063e-07, (12, 29): 4.982500000000001e-07, (12, 30): 5.542529907226563e-07, (12, 31): 4.755020141601563e-07, (12, 32): 4.7565200805664065e-07, (12, 33): 4.5980801391601566e-07, (12, 34): 6.265549926757813e-07, (12, 35): 5.17155029296875e-07, (12, 36): 5.036560058593751e-07, (12, 37): 4.5265200805664067e-07, (12, 38): 4.6600100708007814e-07, (12, 39): 5.858549804687501e-07, (12, 40): 4.772019958496094e-07, (12, 41): 5.347069702148438e-07, (12, 42): 5.092590026855469e-07, (12, 43): 5.649569702148438e-07, (12, 44): 4.1845498657226565e-07, (12, 45): 5.365050048828126e-07, (12, 46): 5.359000244140625e-07, (12, 47): 5.294569702148438e-07, (12, 48): 4.396589965820313e-07, (12, 49): 4.976520080566407e-07, (12, 50): 5.591079711914062e-07, (12, 51): 4.6785400390625004e-07, (12, 52): 5.111530151367187e-07, (12, 53): 5.504530029296875e-07, (12, 54): 5.1360302734375e-07, (12, 55): 5.684010009765626e-07, (12, 56): 5.173070068359376e-07, (12, 57): 5.177550048828126e-07, (12, 58): 4.726069946289063e-07, (12, 59): 5.3985400390625e-07, (12, 60): 5.069030151367187e-07, (13, 1): 5.875549926757813e-07, (13, 2): 6.115009765625e-07, (13, 3): 6.089539794921875e-07, (13, 4): 5.696500244140625e-07, (13, 5): 7.66905029296875e-07, (13, 6): 5.869039916992188e-07, (13, 7): 5.911589965820312e-07, (13, 8): 5.284500122070313e-07, (13, 9): 5.625540161132813e-07, (13, 10): 6.19656005859375e-07, (13, 11): 6.698049926757813e-07, (13, 12): 6.45551025390625e-07, (13, 13): 6.860070190429688e-07, (13, 14): 5.755009765625001e-07, (13, 15): 5.312520141601562e-07, (13, 16): 5.571580200195313e-07, (13, 17): 5.181010131835938e-07, (13, 18): 5.625999755859375e-07, (13, 19): 5.51301025390625e-07, (13, 20): 5.757509765625001e-07, (13, 21): 5.463579711914062e-07, (13, 22): 5.202999877929688e-07, (13, 23): 6.289019775390626e-07, (13, 24): 5.934039916992188e-07, (13, 25): 5.098510131835938e-07, (13, 26): 5.497039794921875e-07, (13, 27): 6.234530029296875e-07, (13, 28): 5.067510070800782e-07, (13, 29): 5.105029907226563e-07, (13, 30): 5.653560180664063e-07, (13, 31): 5.467509765625e-07, (13, 32): 4.7200299072265626e-07, (13, 33): 5.083559875488282e-07, (13, 34): 5.308560180664063e-07, (13, 35): 5.925059814453126e-07, (13, 36): 5.431539916992188e-07, (13, 37): 5.098580017089845e-07, (13, 38): 5.614080200195313e-07, (13, 39): 5.393090209960938e-07, (13, 40): 5.747579956054688e-07, (13, 41): 5.066539916992187e-07, (13, 42): 5.414500122070313e-07, (13, 43): 5.177579956054688e-07, (13, 44): 5.372080078125e-07, (13, 45): 5.212589721679688e-07, (13, 46): 5.821090087890625e-07, (13, 47): 5.997509765625001e-07, (13, 48): 6.383049926757813e-07, (13, 49): 5.953510131835938e-07, (13, 50): 5.332529907226563e-07, (13, 51): 5.669530029296875e-07, (13, 52): 5.194580078125e-07, (13, 53): 5.022059936523438e-07, (13, 54): 5.203049926757813e-07, (13, 55): 4.0920901489257814e-07, (13, 56): 4.6505899047851565e-07, (13, 57): 5.266049804687501e-07, (13, 58): 4.560559997558594e-07, (13, 59): 5.02406005859375e-07, (13, 60): 4.5825201416015627e-07, (14, 1): 5.134089965820313e-07, (14, 2): 6.737030029296876e-07, (14, 3): 6.929520263671875e-07, (14, 4): 5.919039916992188e-07, (14, 5): 4.870509948730469e-07, (14, 6): 6.480070190429687e-07, (14, 7): 5.72906982421875e-07, (14, 8): 7.508060302734375e-07, (14, 9): 6.136060180664063e-07, (14, 10): 7.170009765625001e-07, (14, 11): 5.443040161132813e-07, (14, 12): 6.372559814453125e-07, (14, 13): 5.705499877929688e-07, (14, 14): 7.413530273437501e-07, (14, 15): 6.53551025390625e-07, (14, 16): 4.999559936523438e-07, (14, 17): 6.506519775390625e-07, (14, 18): 5.976019897460937e-07, (14, 19): 6.062540283203125e-07, (14, 20): 5.8225e-07, (14, 21): 6.391510009765626e-07, (14, 22): 6.321010131835938e-07, (14, 23): 6.260549926757813e-07, (14, 24): 6.638530273437501e-07, (14, 25): 8.443070068359376e-07, (14, 26): 5.060060119628906e-07, (14, 27): 6.304000244140625e-07, (14, 28): 6.69301025390625e-07, (14, 29): 6.591510009765625e-07, (14, 30): 5.259010009765625e-07, (14, 31): 5.134530029296875e-07, (14, 32): 6.157009887695313e-07, (14, 33): 6.107999877929687e-07, (14, 34): 5.741560058593751e-07, (14, 35): 6.843549804687501e-07, (14, 36): 4.953049926757813e-07, (14, 37): 5.0660400390625e-07, (14, 38): 5.495009765625e-07, (14, 39): 6.094550170898438e-07, (14, 40): 5.409010009765625e-07, (14, 41): 6.9485400390625e-07, (14, 42): 5.837080078125e-07, (14, 43): 4.842999877929688e-07, (14, 44): 5.578540039062501e-07, (14, 45): 6.621010131835938e-07, (14, 46): 5.967520141601563e-07, (14, 47): 4.687539978027344e-07, (14, 48): 4.825060119628907e-07, (14, 49): 7.413040161132813e-07, (14, 50): 5.935059814453125e-07, (14, 51): 7.41958984375e-07, (14, 52): 7.412009887695313e-07, (14, 53): 7.01156982421875e-07, (14, 54): 5.848510131835938e-07, (14, 55): 8.451510009765626e-07, (14, 56): 6.730510253906251e-07, (14, 57): 6.755089721679688e-07, (14, 58): 7.652030029296876e-07, (14, 59): 7.370020141601562e-07, (14, 60): 7.901539916992188e-07, (15, 1): 6.572039794921875e-07, (15, 2): 7.10708984375e-07, (15, 3): 6.150579833984375e-07, (15, 4): 5.908029785156251e-07, (15, 5): 6.04052978515625e-07, (15, 6): 6.335020141601563e-07, (15, 7): 6.556519775390626e-07, (15, 8): 5.079020080566407e-07, (15, 9): 6.976040039062501e-07, (15, 10): 5.283060302734375e-07, (15, 11): 6.900079956054688e-07, (15, 12): 6.620549926757813e-07, (15, 13): 5.855009765625001e-07, (15, 14): 5.370079956054688e-07, (15, 15): 5.979580078125e-07, (15, 16): 5.932030029296876e-07, (15, 17): 6.804010009765625e-07, (15, 18): 5.266500244140626e-07, (15, 19): 5.115079956054688e-07, (15, 20): 7.030579833984376e-07, (15, 21): 5.47801025390625e-07, (15, 22): 5.981069946289063e-07, (15, 23): 6.659509887695313e-07, (15, 24): 6.305029907226563e-07, (15, 25): 5.679030151367188e-07, (15, 26): 6.0360302734375e-07, (15, 27): 6.876040039062501e-07, (15, 28): 5.539550170898438e-07, (15, 29): 5.316510009765625e-07, (15, 30): 6.058060302734375e-07, (15, 31): 5.32906005859375e-07, (15, 32): 5.315079956054688e-07, (15, 33): 5.663560180664063e-07, (15, 34): 6.053560180664063e-07, (15, 35): 5.265050048828126e-07, (15, 36): 5.993020019531251e-07, (15, 37): 5.393579711914062e-07, (15, 38): 4.882080078125e-07, (15, 39): 5.887059936523438e-07, (15, 40): 5.843499755859376e-07, (15, 41): 4.986549987792969e-07, (15, 42): 5.746519775390625e-07, (15, 43): 6.292509765625001e-07, (15, 44): 5.15302978515625e-07, (15, 45): 5.772559814453125e-07, (15, 46): 4.999559936523438e-07, (15, 47): 4.943030090332031e-07, (15, 48): 5.558590087890625e-07, (15, 49): 5.071549987792969e-07, (15, 50): 5.648510131835938e-07, (15, 51): 5.6385498046875e-07, (15, 52): 5.495050048828125e-07, (15, 53): 5.427520141601563e-07, (15, 54): 7.342059936523438e-07, (15, 55): 5.391060180664063e-07, (15, 56): 5.884550170898438e-07, (15, 57): 5.61155029296875e-07, (15, 58): 4.565020141601563e-07, (15, 59): 5.065050048828126e-07, (15, 60): 5.440079956054688e-07, (16, 1): 6.574539794921875e-07, (16, 2): 5.605999755859376e-07, (16, 3): 6.00906982421875e-07, (16, 4): 5.217589721679688e-07, (16, 5): 6.521580200195313e-07, (16, 6): 5.372030029296875e-07, (16, 7): 6.135079956054688e-07, (16, 8): 5.443510131835938e-07, (16, 9): 6.510009765625e-07, (16, 10): 6.797520141601563e-07, (16, 11): 5.486580200195313e-07, (16, 12): 7.306069946289063e-07, (16, 13): 5.655070190429688e-07, (16, 14): 5.19406005859375e-07, (16, 15): 5.827529907226563e-07, (16, 16): 5.269569702148437e-07, (16, 17): 6.360510253906251e-07, (16, 18): 6.679550170898438e-07, (16, 19): 5.386519775390626e-07, (16, 20): 5.633579711914062e-07, (16, 21): 4.5095901489257815e-07, (16, 22): 5.388519897460938e-07, (16, 23): 4.7180700683593754e-07, (16, 24): 5.50801025390625e-07, (16, 25): 5.705059814453125e-07, (16, 26): 4.87156005859375e-07, (16, 27): 5.144559936523437e-07, (16, 28): 4.782529907226563e-07, (16, 29): 5.203590087890625e-07, (16, 30): 5.417039794921875e-07, (16, 31): 5.450540161132813e-07, (16, 32): 4.854060058593751e-07, (16, 33): 5.707059936523438e-07, (16, 34): 5.138510131835938e-07, (16, 35): 5.627509765625e-07, (16, 36): 5.369520263671876e-07, (16, 37): 4.898089904785157e-07, (16, 38): 4.770069885253907e-07, (16, 39): 5.217000122070313e-07, (16, 40): 5.29052001953125e-07, (16, 41): 4.7025100708007814e-07, (16, 42): 5.249509887695313e-07, (16, 43): 4.973529968261719e-07, (16, 44): 4.598059997558594e-07, (16, 45): 4.6735000610351567e-07, (16, 46): 5.607999877929688e-07, (16, 47): 5.429089965820313e-07, (16, 48): 4.878999938964844e-07, (16, 49): 5.592509765625e-07, (16, 50): 4.426530151367188e-07, (16, 51): 4.791029968261719e-07, (16, 52): 4.799540100097656e-07, (16, 53): 5.222579956054687e-07, (16, 54): 5.007590026855469e-07, (16, 55): 4.5910501098632814e-07, (16, 56): 4.35e-07, (16, 57): 4.4235101318359377e-07, (16, 58): 4.0975799560546875e-07, (16, 59): 5.707520141601562e-07, (16, 60): 5.416519775390626e-07, (17, 1): 6.000009765625e-07, (17, 2): 6.99405029296875e-07, (17, 3): 6.410999755859376e-07, (17, 4): 5.37802001953125e-07, (17, 5): 5.547030029296875e-07, (17, 6): 6.487009887695312e-07, (17, 7): 6.009060058593751e-07, (17, 8): 6.29208984375e-07, (17, 9): 5.629019775390626e-07, (17, 10): 5.982020263671875e-07, (17, 11): 5.64906005859375e-07, (17, 12): 5.694039916992188e-07, (17, 13): 5.946079711914063e-07, (17, 14): 5.580050048828125e-07, (17, 15): 6.529039916992188e-07, (17, 16): 5.713010253906251e-07, (17, 17): 5.622039794921876e-07, (17, 18): 5.310089721679688e-07, (17, 19): 5.639019775390626e-07, (17, 20): 5.552039794921876e-07, (17, 21): 5.33802978515625e-07, (17, 22): 5.780999755859375e-07, (17, 23): 5.228040161132813e-07, (17, 24): 7.08208984375e-07, (17, 25): 5.706060180664063e-07, (17, 26): 5.415029907226563e-07, (17, 27): 4.865090026855469e-07, (17, 28): 4.857030029296875e-07, (17, 29): 5.02906005859375e-07, (17, 30): 6.180059814453126e-07, (17, 31): 5.884080200195313e-07, (17, 32): 5.234080200195313e-07, (17, 33): 5.397080078125001e-07, (17, 34): 5.406049804687501e-07, (17, 35): 4.824089965820313e-07, (17, 36): 5.231090087890625e-07, (17, 37): 5.052040100097656e-07, (17, 38): 5.189060058593751e-07, (17, 39): 5.182039794921876e-07, (17, 40): 5.443070068359376e-07, (17, 41): 4.960090026855469e-07, (17, 42): 5.402009887695312e-07, (17, 43): 4.4990701293945313e-07, (17, 44): 5.287020263671876e-07, (17, 45): 5.356019897460937e-07, (17, 46): 5.713020019531251e-07, (17, 47): 5.673079833984375e-07, (17, 48): 5.015020141601562e-07, (17, 49): 4.7400698852539064e-07, (17, 50): 5.024070129394531e-07, (17, 51): 5.83302001953125e-07, (17, 52): 5.155009765625e-07, (17, 53): 5.540089721679688e-07, (17, 54): 4.721029968261719e-07, (17, 55): 5.291079711914063e-07, (17, 56): 5.462009887695313e-07, (17, 57): 5.160009765625e-07, (17, 58): 5.764030151367188e-07, (17, 59): 4.4730300903320316e-07, (17, 60): 4.4190899658203125e-07, (18, 1): 5.676069946289063e-07, (18, 2): 6.547020263671875e-07, (18, 3): 5.650070190429688e-07, (18, 4): 6.927540283203126e-07, (18, 5): 5.81406005859375e-07, (18, 6): 6.152039794921875e-07, (18, 7): 6.704030151367187e-07, (18, 8): 6.330009765625e-07, (18, 9): 6.023579711914063e-07, (18, 10): 6.848579711914063e-07, (18, 11): 5.78906982421875e-07, (18, 12): 4.656019897460938e-07, (18, 13): 6.239530029296875e-07, (18, 14): 6.027059936523438e-07, (18, 15): 5.752540283203125e-07, (18, 16): 5.368519897460937e-07, (18, 17): 4.964030151367188e-07, (18, 18): 5.32551025390625e-07, (18, 19): 4.5300601196289063e-07, (18, 20): 5.16905029296875e-07, (18, 21): 5.773499755859376e-07, (18, 22): 5.60656005859375e-07, (18, 23): 5.636510009765625e-07, (18, 24): 6.200499877929688e-07, (18, 25): 5.285549926757813e-07, (18, 26): 5.869050292968751e-07, (18, 27): 5.891589965820313e-07, (18, 28): 4.6230899047851565e-07, (18, 29): 5.823579711914063e-07, (18, 30): 5.435999755859376e-07, (18, 31): 5.744089965820313e-07, (18, 32): 5.347509765625001e-07, (18, 33): 4.956499938964844e-07, (18, 34): 5.309559936523438e-07, (18, 35): 6.119089965820313e-07, (18, 36): 4.79654998779297e-07, (18, 37): 5.658079833984375e-07, (18, 38): 4.6630300903320316e-07, (18, 39): 5.690079956054687e-07, (18, 40): 4.6320401000976566e-07, (18, 41): 5.392570190429688e-07, (18, 42): 5.424509887695313e-07, (18, 43): 5.43052978515625e-07, (18, 44): 5.379010009765625e-07, (18, 47): 5.250009765625001e-07, (18, 48): 4.49802001953125e-07, (18, 49): 5.188040161132813e-07, (18, 50): 5.280560302734375e-07, (18, 51): 4.966059875488282e-07, (18, 52): 4.7330700683593754e-07, (18, 53): 5.015559997558594e-07, (18, 54): 5.22208984375e-07, (18, 55): 4.642590026855469e-07, (18, 56): 5.776530151367188e-07, (18, 57): 4.3855700683593753e-07, (18, 58): 4.78906005859375e-07, (18, 59): 4.570559997558594e-07, (18, 60): 4.2680300903320316e-07, (19, 1): 6.047069702148438e-07, (19, 2): 6.0960302734375e-07, (19, 3): 6.875020141601563e-07, (19, 4): 4.925020141601563e-07, (19, 5): 5.657080078125e-07, (19, 6): 5.70655029296875e-07, (19, 7): 4.918590087890625e-07, (19, 8): 5.258519897460938e-07, (19, 9): 5.318569946289063e-07, (19, 10): 5.205499877929687e-07, (19, 11): 5.938060302734376e-07, (19, 12): 5.598010253906251e-07, (19, 13): 5.960020141601562e-07, (19, 14): 5.306069946289063e-07, (19, 15): 4.902539978027344e-07, (19, 16): 5.180089721679687e-07, (19, 17): 5.978029785156251e-07, (19, 18): 5.012569885253906e-07, (19, 19): 5.45958984375e-07, (19, 20): 4.947560119628906e-07, (19, 21): 6.139030151367188e-07, (19, 22): 5.021530151367188e-07, (19, 23): 5.129569702148437e-07, (19, 24): 6.39552001953125e-07, (19, 25): 6.56906005859375e-07, (19, 26): 5.635549926757813e-07, (19, 27): 5.103519897460938e-07, (19, 28): 5.392039794921875e-07, (19, 29): 5.393519897460938e-07, (19, 30): 4.6754998779296877e-07, (19, 31): 5.470529785156251e-07, (19, 32): 4.7030801391601565e-07, (19, 33): 5.701539916992187e-07, (19, 34): 4.5040798950195313e-07, (19, 35): 4.792539978027344e-07, (19, 36): 5.606539916992188e-07, (19, 37): 5.663070068359375e-07, (19, 38): 5.498049926757813e-07, (19, 39): 5.414069824218751e-07, (19, 40): 5.214000244140625e-07, (19, 41): 5.023070068359375e-07, (19, 42): 5.428070068359376e-07, (19, 43): 4.907569885253907e-07, (19, 44): 4.970559997558594e-07, (19, 45): 4.789089965820313e-07, (19, 46): 5.018020019531251e-07, (19, 47): 4.6835000610351564e-07, (19, 48): 5.584500122070313e-07, (19, 49): 4.4920599365234375e-07, (19, 50): 5.682069702148438e-07, (19, 51): 4.1160598754882813e-07, (19, 52): 5.285540161132813e-07, (19, 53): 4.797049865722656e-07, (19, 54): 4.054070129394531e-07, (19, 55): 4.961019897460937e-07, (19, 56): 5.045069885253907e-07, (19, 57): 4.4555300903320313e-07, (19, 58): 4.637059936523438e-07, (19, 59): 3.960530090332032e-07, (19, 60): 4.928529968261719e-07, (20, 1): 6.156580200195313e-07, (20, 2): 5.817500000000001e-07, (20, 3): 5.75802001953125e-07, (20, 4): 6.161530151367188e-07, (20, 5): 4.6760900878906253e-07, (20, 6): 5.9360302734375e-07, (20, 7): 5.727540283203125e-07, (20, 8): 5.229569702148438e-07, (20, 9): 5.92458984375e-07, (20, 10): 6.430059814453126e-07, (20, 11): 5.996539916992188e-07, (20, 12): 5.652050170898438e-07, (20, 13): 4.895559997558594e-07, (20, 14): 5.793499755859375e-07, (20, 15): 5.514089965820313e-07, (20, 16): 7.805579833984376e-07, (20, 17): 5.345040283203125e-07, (20, 18): 5.19302978515625e-07, (20, 19): 5.979039916992188e-07, (20, 20): 5.425040283203125e-07, (20, 21): 6.276569824218751e-07, (20, 22): 5.399559936523437e-07, (20, 23): 4.997009887695313e-07, (20, 24): 5.204080200195313e-07, (20, 25): 5.946010131835938e-07, (20, 26): 5.290540161132812e-07, (20, 27): 5.332020263671875e-07, (20, 28): 5.647009887695313e-07, (20, 29): 5.861040039062501e-07, (20, 30): 5.622039794921876e-07, (20, 31): 5.877039794921876e-07, (20, 32): 5.2635400390625e-07, (20, 33): 6.023049926757812e-07, (20, 34): 5.34301025390625e-07, (20, 35): 4.948009948730469e-07, (20, 36): 5.230499877929688e-07, (20, 37): 4.947059936523437e-07, (20, 38): 4.1835900878906254e-07, (20, 39): 4.777040100097657e-07, (20, 40): 4.257590026855469e-07, (20, 41): 6.268049926757813e-07, (20, 42): 5.879539794921875e-07, (20, 43): 4.3680499267578125e-07, (20, 44): 4.845589904785157e-07, (20, 45): 4.4010501098632814e-07, (20, 46): 5.577039794921876e-07, (20, 47): 5.393499755859376e-07, (20, 48): 5.220079956054688e-07, (20, 49): 4.845580139160157e-07, (20, 50): 4.175039978027344e-07, (20, 51): 4.942590026855469e-07, (20, 52): 5.228579711914063e-07, (20, 53): 4.5445800781250003e-07, (20, 54): 4.990060119628906e-07, (20, 55): 5.049070129394532e-07, (20, 56): 5.179580078125e-07, (20, 57): 5.4260400390625e-07, (20, 58): 4.4745498657226566e-07, (20, 59): 4.2120401000976563e-07, (20, 60): 4.515559997558594e-07, (21, 1): 5.346079711914063e-07, (21, 2): 6.09552978515625e-07, (21, 3): 5.690029907226562e-07, (21, 4): 5.478060302734375e-07, (21, 5): 7.096010131835938e-07, (21, 6): 6.099550170898438e-07, (21, 7): 6.047550048828125e-07, (21, 8): 6.50551025390625e-07, (21, 9): 5.501060180664063e-07, (21, 10): 5.46802001953125e-07, (21, 11): 5.22552001953125e-07, (21, 12): 5.580570068359376e-07, (21, 13): 5.635050048828125e-07, (21, 14): 6.287000122070313e-07, (21, 15): 4.820580139160157e-07, (21, 16): 5.840029907226563e-07, (21, 17): 5.837550048828125e-07, (21, 18): 5.82405029296875e-07, (21, 19): 4.867049865722656e-07, (21, 20): 5.6585302734375e-07, (21, 21): 5.3710400390625e-07, (21, 22): 5.556539916992188e-07, (21, 23): 5.588079833984375e-07, (21, 24): 5.529550170898438e-07, (21, 25): 5.059530029296876e-07, (21, 26): 5.770510253906251e-07, (21, 27): 5.572550048828126e-07, (21, 28): 4.897569885253907e-07, (21, 29): 4.944089965820313e-07, (21, 30): 4.7400799560546876e-07, (21, 31): 5.239010009765625e-07, (21, 32): 5.021090087890625e-07, (21, 33): 4.641499938964844e-07, (21, 34): 5.514569702148438e-07, (21, 35): 4.490090026855469e-07, (21, 36): 5.511530151367188e-07, (21, 37): 4.855069885253907e-07, (21, 38): 4.7485400390625004e-07, (21, 39): 5.656010131835938e-07, (21, 40): 5.623579711914063e-07, (21, 41): 5.184539794921876e-07, (21, 42): 5.824000244140625e-07, (21, 43): 4.7590399169921875e-07, (21, 44): 5.127030029296875e-07, (21, 45): 4.726029968261719e-07, (21, 46): 5.032049865722656e-07, (21, 47): 4.6640200805664064e-07, (21, 48): 5.831069946289063e-07, (21, 49): 4.867539978027344e-07, (21, 50): 5.68302978515625e-07, (21, 51): 5.687579956054688e-07, (21, 52): 4.926000061035157e-07, (21, 53): 4.972510070800781e-07, (21, 54): 5.90155029296875e-07, (21, 55): 6.532999877929688e-07, (21, 56): 6.363569946289063e-07, (21, 57): 5.748569946289062e-07, (21, 58): 6.153549804687501e-07, (21, 59): 5.429500122070313e-07, (21, 60): 4.950589904785156e-07, (22, 1): 5.320590209960938e-07, (22, 2): 5.244089965820313e-07, (22, 3): 8.040540161132814e-07, (22, 4): 5.197020263671875e-07, (22, 5): 4.848999938964844e-07, (22, 6): 7.23051025390625e-07, (22, 7): 7.830089721679687e-07, (22, 8): 6.838590087890625e-07, (22, 9): 6.454089965820313e-07, (22, 10): 7.217579956054688e-07, (22, 11): 5.374509887695313e-07, (22, 12): 5.434010009765626e-07, (22, 13): 5.976519775390625e-07, (22, 14): 7.575570068359375e-07, (22, 15): 4.971549987792969e-07, (22, 16): 5.664580078125001e-07, (22, 17): 6.523540039062501e-07, (22, 18): 5.047080078125e-07, (22, 19): 6.886040039062501e-07, (22, 20): 5.217009887695312e-07, (22, 21): 4.894530029296875e-07, (22, 22): 6.621040039062501e-07, (22, 23): 4.890050048828125e-07, (22, 24): 5.680029907226563e-07, (22, 25): 7.504050292968751e-07, (22, 26): 5.24e-07, (22, 27): 6.883020019531251e-07, (22, 28): 6.263499755859375e-07, (22, 29): 6.373590087890625e-07, (22, 30): 6.271530151367188e-07, (22, 31): 4.813030090332031e-07, (22, 32): 7.274039916992188e-07, (22, 33): 5.851500244140625e-07, (22, 34): 6.645089721679687e-07, (22, 35): 7.381530151367187e-07, (22, 36): 6.559080200195313e-07, (22, 37): 6.460070190429688e-07, (22, 38): 5.294509887695313e-07, (22, 39): 5.27801025390625e-07, (22, 40): 6.090059814453125e-07, (22, 41): 5.30155029296875e-07, (22, 42): 7.70552978515625e-07, (22, 43): 5.781060180664063e-07, (22, 44): 7.813020019531251e-07, (22, 45): 6.334010009765626e-07, (22, 46): 5.703040161132813e-07, (22, 47): 5.397589721679688e-07, (22, 48): 6.742509765625001e-07, (22, 49): 1.2000000476837158e-09, (22, 50): 6.197039794921876e-07, (22, 51): 8.675560302734375e-07, (22, 52): 7.462540283203126e-07, (22, 53): 7.145e-07, (22, 54): 6.268510131835938e-07, (22, 55): 5.439569702148437e-07, (22, 56): 5.624550170898438e-07, (22, 57): 6.041580200195313e-07, (22, 58): 5.285529785156251e-07, (22, 59): 7.547020263671875e-07, (22, 60): 8.578569946289063e-07, (23, 1): 5.243029785156251e-07, (23, 2): 6.363579711914063e-07, (23, 3): 5.788549804687501e-07, (23, 4): 6.464089965820313e-07, (23, 5): 7.312009887695313e-07, (23, 6): 5.5710400390625e-07, (23, 7): 5.966090087890625e-07, (23, 8): 5.710999755859375e-07, (23, 9): 6.074089965820313e-07, (23, 10): 6.071030273437501e-07, (23, 11): 5.247009887695312e-07, (23, 12): 6.057020263671875e-07, (23, 13): 6.330089721679688e-07, (23, 14): 6.992059936523437e-07, (23, 15): 6.725020141601563e-07, (23, 16): 5.907030029296876e-07, (23, 17): 6.362509765625001e-07, (23, 18): 6.174580078125e-07, (23, 19): 4.937080078125e-07, (23, 20): 5.934539794921875e-07, (23, 21): 5.428519897460938e-07, (23, 22): 5.327080078125001e-07, (23, 23): 5.474050292968751e-07, (23, 24): 5.600549926757812e-07, (23, 25): 4.903519897460937e-07, (23, 26): 5.005039978027344e-07, (23, 27): 6.800050048828126e-07, (23, 28): 5.566519775390625e-07, (23, 29): 5.450050048828125e-07, (23, 30): 6.982080078125e-07, (23, 31): 4.803059997558594e-07, (23, 32): 5.179569702148438e-07, (23, 33): 5.330549926757812e-07, (23, 34): 5.376500244140626e-07, (23, 35): 4.5575299072265625e-07, (23, 36): 4.540509948730469e-07, (23, 37): 4.673070068359375e-07, (23, 38): 4.596539916992188e-07, (23, 39): 5.464080200195313e-07, (23, 40): 4.437560119628907e-07, (23, 41): 7.031010131835938e-07, (23, 42): 5.026019897460938e-07, (23, 43): 5.859550170898438e-07, (23, 44): 6.433079833984375e-07, (23, 45): 5.156010131835938e-07, (23, 46): 4.5985598754882816e-07, (23, 47): 6.252529907226563e-07, (23, 48): 5.821019897460937e-07, (23, 49): 6.546580200195313e-07, (23, 50): 4.7140200805664065e-07, (23, 51): 4.752059936523438e-07, (23, 52): 5.573079833984375e-07, (23, 53): 6.532540283203126e-07, (23, 54): 4.943039855957032e-07, (23, 55): 4.3275299072265627e-07, (23, 56): 6.321530151367188e-07, (23, 57): 5.880009765625e-07, (23, 58): 4.722579956054688e-07, (23, 59): 4.967510070800782e-07, (23, 60): 6.365549926757813e-07, (24, 1): 5.475590209960938e-07, (24, 2): 6.224580078125e-07, (24, 3): 5.822509765625e-07, (24, 4): 6.854569702148438e-07, (24, 5): 5.622509765625e-07, (24, 6): 4.982049865722657e-07, (24, 7): 6.179569702148438e-07, (24, 8): 5.29906982421875e-07, (24, 9): 6.000059814453125e-07, (24, 10): 6.338070068359375e-07, (24, 11): 5.594569702148437e-07, (24, 12): 5.905999755859375e-07, (24, 13): 5.270570068359376e-07, (24, 14): 6.328049926757813e-07, (24, 15): 4.950499877929688e-07, (24, 16): 5.327080078125001e-07, (24, 17): 5.977999877929688e-07, (24, 18): 5.995059814453126e-07, (24, 19): 6.245079956054688e-07, (24, 20): 5.233560180664063e-07, (24, 21): 6.464520263671875e-07, (24, 22): 6.362039794921875e-07, (24, 23): 5.735059814453125e-07, (24, 24): 6.464089965820313e-07, (24, 25): 4.4875698852539064e-07, (24, 26): 6.742509765625001e-07, (24, 27): 6.769080200195313e-07, (24, 28): 5.0210400390625e-07, (24, 29): 6.184580078125001e-07, (24, 30): 5.52406982421875e-07, (24, 31): 5.88406005859375e-07, (24, 32): 6.37156005859375e-07, (24, 33): 5.109020080566407e-07, (24, 34): 4.908999938964844e-07, (24, 35): 5.1935302734375e-07, (24, 36): 4.876019897460937e-07, (24, 37): 5.407559814453125e-07, (24, 38): 5.113070068359375e-07, (24, 39): 5.527080078125e-07, (24, 40): 4.83904998779297e-07, (24, 41): 5.038529968261719e-07, (24, 42): 4.848049926757813e-07, (24, 43): 4.7500201416015625e-07, (24, 44): 5.442059936523437e-07, (24, 45): 6.579580078125001e-07, (24, 46): 4.5680801391601565e-07, (24, 47): 4.734559936523438e-07, (24, 48): 4.085549926757813e-07, (24, 49): 5.15655029296875e-07, (24, 50): 4.94552001953125e-07, (24, 51): 5.222520141601563e-07, (24, 52): 5.884019775390625e-07, (24, 53): 5.944550170898438e-07, (24, 54): 4.7450601196289066e-07, (24, 55): 5.600020141601563e-07, (24, 57): 6.091539916992188e-07, (24, 58): 6.185570068359376e-07, (24, 59): 5.565560302734375e-07, (24, 60): 5.520999755859376e-07, (25, 1): 5.404050292968751e-07, (25, 2): 4.734519958496094e-07, (25, 3): 6.844580078125e-07, (25, 4): 6.833040161132813e-07, (25, 5): 5.989520263671876e-07, (25, 6): 5.406510009765625e-07, (25, 7): 6.954530029296875e-07, (25, 8): 5.302009887695312e-07, (25, 9): 7.095040283203125e-07, (25, 10): 5.621019897460938e-07, (25, 11): 6.168060302734375e-07, (25, 12): 6.232589721679688e-07, (25, 13): 6.627039794921875e-07, (25, 14): 5.560040283203126e-07, (25, 15): 5.704559936523438e-07, (25, 16): 6.353540039062501e-07, (25, 17): 6.277020263671875e-07, (25, 18): 6.394089965820313e-07, (25, 19): 5.535560302734375e-07, (25, 20): 6.516510009765626e-07, (25, 21): 5.117049865722656e-07, (25, 22): 4.5445800781250003e-07, (25, 23): 4.240020141601563e-07, (25, 24): 5.930590209960938e-07, (25, 25): 5.298499755859375e-07, (25, 26): 5.287589721679688e-07, (25, 27): 6.739550170898438e-07, (25, 28): 5.830549926757813e-07, (25, 29): 6.3885498046875e-07, (25, 30): 5.883060302734375e-07, (25, 31): 5.303060302734376e-07, (25, 32): 5.578070068359375e-07, (25, 33): 5.667059936523437e-07, (25, 34): 5.246530151367188e-07, (25, 35): 5.123070068359375e-07, (25, 36): 5.894559936523438e-07, (25, 37): 5.624569702148438e-07, (25, 38): 5.142509765625e-07, (25, 39): 5.97406005859375e-07, (25, 40): 4.817529907226562e-07, (25, 41): 5.201090087890625e-07, (25, 42): 6.224539794921876e-07, (25, 43): 5.336539916992188e-07, (25, 44): 5.485560302734376e-07, (25, 45): 5.087009887695313e-07, (25, 46): 5.225040283203126e-07, (25, 47): 4.3935900878906253e-07, (25, 48): 5.940540161132812e-07, (25, 49): 5.24156005859375e-07, (25, 50): 5.74906982421875e-07, (25, 51): 5.831079711914062e-07, (25, 52): 5.332059936523438e-07, (25, 53): 6.222570190429688e-07, (25, 54): 7.7735302734375e-07, (25, 55): 5.27156005859375e-07, (25, 56): 5.654539794921875e-07, (25, 57): 6.018090209960938e-07, (25, 58): 5.399569702148438e-07, (25, 59): 6.092999877929688e-07, (25, 60): 7.032059936523438e-07, (26, 1): 5.499500122070313e-07, (26, 2): 5.6e-07, (26, 3): 4.950090026855469e-07, (26, 4): 5.182520141601563e-07, (26, 5): 5.566090087890625e-07, (26, 6): 6.885000000000001e-07, (26, 7): 6.98656005859375e-07, (26, 8): 6.519000244140626e-07, (26, 9): 6.396079711914063e-07, (26, 10): 6.446580200195313e-07, (26, 11): 5.615079956054688e-07, (26, 12): 5.235020141601563e-07, (26, 13): 5.754530029296875e-07, (26, 14): 6.368499755859376e-07, (26, 15): 6.059539794921876e-07, (26, 16): 6.6335302734375e-07, (26, 17): 5.178560180664063e-07, (26, 18): 5.837570190429688e-07, (26, 19): 6.166510009765626e-07, (26, 20): 5.375999755859375e-07, (26, 21): 5.304060058593751e-07, (26, 22): 5.8775e-07, (26, 23): 5.074580078125e-07, (26, 24): 5.651510009765625e-07, (26, 25): 4.6760900878906253e-07, (26, 26): 5.008500061035156e-07, (26, 27): 5.883499755859375e-07, (26, 28): 5.784580078125e-07, (26, 29): 4.912090148925782e-07, (26, 30): 5.164520263671875e-07, (26, 31): 5.614030151367188e-07, (26, 32): 5.559010009765626e-07, (26, 33): 4.307590026855469e-07, (26, 34): 6.215079956054688e-07, (26, 35): 5.14405029296875e-07, (26, 36): 5.594530029296876e-07, (26, 37): 5.151079711914063e-07, (26, 38): 5.317559814453126e-07, (26, 39): 4.7360699462890626e-07, (26, 40): 5.135579833984375e-07, (26, 41): 6.572039794921875e-07, (26, 42): 6.152579956054688e-07, (26, 43): 5.610570068359376e-07, (26, 44): 5.277999877929687e-07, (26, 45): 5.590549926757813e-07, (26, 47): 5.829539794921875e-07, (26, 48): 5.426069946289063e-07, (26, 49): 4.892999877929688e-07, (26, 50): 5.32656982421875e-07, (26, 51): 5.4285498046875e-07, (26, 52): 4.7225201416015626e-07, (26, 53): 5.060060119628906e-07, (26, 54): 5.056499938964844e-07, (26, 55): 4.730549926757813e-07, (26, 56): 4.846000061035157e-07, (26, 57): 4.994549865722656e-07, (26, 58): 4.953569946289063e-07, (26, 59): 5.817550048828125e-07, (26, 60): 5.492529907226562e-07, (27, 1): 5.880570068359376e-07, (27, 2): 6.187589721679688e-07, (27, 3): 7.097500000000001e-07, (27, 4): 6.140000000000001e-07, (27, 5): 6.947559814453125e-07, (27, 6): 5.313070068359376e-07, (27, 9): 7.040999755859376e-07, (27, 10): 5.982020263671875e-07, (27, 11): 5.902589721679688e-07, (27, 12): 5.789019775390625e-07, (27, 13): 6.255560302734375e-07, (27, 14): 4.762030029296875e-07, (27, 15): 5.911530151367188e-07, (27, 16): 5.481019897460937e-07, (27, 17): 6.0510302734375e-07, (27, 18): 5.780089721679688e-07, (27, 19): 5.852039794921875e-07, (27, 20): 5.118059997558595e-07, (27, 21): 5.351060180664063e-07, (27, 22): 6.115020141601562e-07, (27, 23): 4.956019897460938e-07, (27, 24): 5.618049926757813e-07, (27, 25): 6.230560302734376e-07, (27, 26): 5.570999755859375e-07, (27, 27): 5.297520141601562e-07, (27, 28): 4.7375601196289065e-07, (27, 29): 4.847049865722657e-07, (27, 30): 5.1535302734375e-07, (27, 31): 5.403579711914063e-07, (27, 32): 5.319030151367188e-07, (27, 33): 5.072030029296876e-07, (27, 34): 4.805570068359376e-07, (27, 35): 5.160590209960938e-07, (27, 36): 5.621079711914063e-07, (27, 37): 5.27e-07, (27, 38): 5.188040161132813e-07, (27, 39): 5.082510070800782e-07, (27, 40): 5.49958984375e-07, (27, 41): 4.872590026855469e-07, (27, 42): 5.308070068359375e-07, (27, 43): 5.930089721679688e-07, (27, 44): 5.407509765625e-07, (27, 45): 5.239580078125001e-07, (27, 46): 4.7570800781250004e-07, (27, 47): 5.589559936523438e-07, (27, 48): 4.88957000732422e-07, (27, 49): 5.566589965820313e-07, (27, 50): 4.949089965820313e-07, (27, 51): 5.430560302734376e-07, (27, 52): 5.013519897460938e-07, (27, 53): 4.658580017089844e-07, (27, 54): 5.299569702148437e-07, (27, 55): 4.862569885253907e-07, (27, 56): 5.231539916992188e-07, (27, 57): 4.732019958496094e-07, (27, 58): 5.069020080566406e-07, (27, 59): 4.4115100097656253e-07, (27, 60): 4.2215600585937504e-07, (28, 1): 6.06156005859375e-07, (28, 2): 7.644060058593751e-07, (28, 3): 5.856530151367188e-07, (28, 4): 6.147540283203125e-07, (28, 5): 6.676580200195313e-07, (28, 6): 5.605000000000001e-07, (28, 7): 5.379010009765625e-07, (28, 8): 5.179539794921875e-07, (28, 9): 5.888499755859376e-07, (28, 10): 6.007059936523438e-07, (28, 11): 4.768550109863282e-07, (28, 12): 5.254080200195313e-07, (28, 13): 5.491049804687501e-07, (28, 14): 6.805549926757813e-07, (28, 15): 5.25405029296875e-07, (28, 16): 5.404539794921875e-07, (28, 17): 5.901500244140626e-07, (28, 18): 5.779019775390625e-07, (28, 19): 5.391500244140626e-07, (28, 20): 5.967069702148438e-07, (28, 21): 5.517509765625001e-07, (28, 22): 5.859010009765625e-07, (28, 23): 5.406049804687501e-07, (28, 24): 5.088569946289063e-07, (28, 25): 5.960590209960938e-07, (28, 26): 4.869530029296875e-07, (28, 27): 5.273090209960938e-07, (28, 28): 5.794520263671876e-07, (28, 29): 5.327059936523438e-07, (28, 30): 5.38156982421875e-07, (28, 31): 5.633569946289063e-07, (28, 32): 5.997000122070313e-07, (28, 33): 4.732539978027344e-07, (28, 34): 6.087009887695313e-07, (28, 35): 5.867540283203125e-07, (28, 36): 5.032059936523437e-07, (28, 37): 4.4305200195312503e-07, (28, 38): 5.336060180664063e-07, (28, 39): 4.894020080566407e-07, (28, 40): 5.927080078125e-07, (28, 43): 5.275499877929688e-07, (28, 44): 5.366580200195313e-07, (28, 45): 6.439520263671875e-07, (28, 46): 4.3705899047851566e-07, (28, 47): 4.785079956054687e-07, (28, 48): 4.907579956054688e-07, (28, 49): 5.241069946289062e-07, (28, 50): 4.5890600585937505e-07, (28, 51): 4.770559997558594e-07, (28, 52): 4.920020141601563e-07, (28, 53): 4.958500061035157e-07, (28, 54): 5.287000122070313e-07, (28, 55): 4.562049865722657e-07, (28, 56): 4.849079895019532e-07, (28, 57): 5.231580200195313e-07, (28, 58): 5.290510253906251e-07, (28, 59): 5.063510131835938e-07, (28, 60): 5.109580078125e-07, (29, 1): 6.065e-07, (29, 2): 5.829019775390625e-07, (29, 3): 5.817500000000001e-07, (29, 4): 6.491010131835938e-07, (29, 5): 6.2410498046875e-07, (29, 6): 5.319559936523438e-07, (29, 7): 5.837550048828125e-07, (29, 8): 4.963080139160157e-07, (29, 9): 5.334559936523438e-07, (29, 10): 6.253049926757813e-07, (29, 11): 5.078500061035156e-07, (29, 12): 4.981000061035156e-07, (29, 13): 6.8335498046875e-07, (29, 14): 4.0690399169921876e-07, (29, 15): 5.786539916992187e-07, (29, 16): 6.405020141601563e-07, (29, 17): 4.62656005859375e-07, (29, 18): 6.041040039062501e-07, (29, 19): 5.591589965820313e-07, (29, 20): 5.060549926757813e-07, (29, 21): 5.975540161132813e-07, (29, 22): 5.36552978515625e-07, (29, 23): 4.671059875488282e-07, (29, 24): 5.2385302734375e-07, (29, 25): 5.464520263671875e-07, (29, 26): 4.776520080566406e-07, (29, 27): 5.275999755859375e-07, (29, 28): 5.28052001953125e-07, (29, 29): 6.009530029296875e-07, (29, 30): 5.815070190429688e-07, (29, 31): 5.694569702148438e-07, (29, 32): 4.1660699462890626e-07, (29, 33): 5.230590209960938e-07, (29, 34): 5.886040039062501e-07, (29, 35): 4.473569946289063e-07, (29, 36): 4.976059875488281e-07, (29, 37): 6.178090209960937e-07, (29, 38): 6.319039916992188e-07, (29, 39): 6.271530151367188e-07, (29, 40): 5.580050048828125e-07, (29, 41): 6.586530151367188e-07, (29, 42): 4.6905398559570317e-07, (29, 43): 6.104580078125e-07, (29, 44): 5.7960498046875e-07, (29, 45): 4.827539978027344e-07, (29, 46): 5.967529907226563e-07, (29, 47): 4.173590087890625e-07, (29, 48): 4.364500122070313e-07, (29, 49): 5.723499755859375e-07, (29, 50): 6.968510131835938e-07, (29, 51): 5.561519775390625e-07, (29, 52): 4.792059936523437e-07, (29, 53): 3.8230398559570316e-07, (29, 54): 6.669000244140625e-07, (29, 55): 5.43655029296875e-07, (29, 56): 5.817089843750001e-07, (29, 57): 7.945009765625001e-07, (29, 58): 6.264539794921875e-07, (30, 1): 5.911510009765626e-07, (30, 2): 5.684019775390626e-07, (30, 3): 5.846090087890626e-07, (30, 4): 5.934580078125e-07, (30, 5): 5.736079711914063e-07, (30, 6): 6.134019775390626e-07, (30, 7): 5.66655029296875e-07, (30, 8): 5.838560180664063e-07, (30, 9): 5.863569946289063e-07, (30, 10): 5.575560302734375e-07, (30, 11): 5.579500122070313e-07, (30, 12): 4.928569946289063e-07, (30, 13): 6.788590087890626e-07, (30, 14): 5.229000244140625e-07, (30, 15): 6.21302978515625e-07, (30, 16): 6.309569702148438e-07, (30, 17): 4.987510070800781e-07, (30, 18): 6.286090087890625e-07, (30, 19): 5.053039855957031e-07, (30, 20): 4.458569946289063e-07, (30, 21): 4.6820800781250005e-07, (30, 22): 5.453090209960938e-07, (30, 24): 4.835079956054688e-07, (30, 25): 5.272030029296876e-07, (30, 26): 4.914509887695313e-07, (30, 27): 4.6820300292968754e-07, (30, 28): 4.4255899047851565e-07, (30, 29): 5.480020141601562e-07, (30, 30): 4.2955700683593754e-07, (30, 31): 5.924060058593751e-07, (30, 32): 4.84e-07, (30, 33): 5.094580078125e-07, (30, 34): 5.466500244140625e-07, (30, 35): 5.354019775390625e-07, (30, 36): 4.819020080566406e-07, (30, 37): 4.411499938964844e-07, (30, 38): 4.546549987792969e-07, (30, 39): 5.530510253906251e-07, (30, 40): 5.276580200195313e-07, (30, 41): 5.346500244140625e-07, (30, 42): 4.5555700683593753e-07, (30, 43): 4.5420901489257813e-07, (30, 44): 4.4185000610351566e-07, (30, 45): 5.534559936523438e-07, (30, 46): 5.040570068359375e-07, (30, 47): 6.202080078125e-07, (30, 48): 4.438039855957032e-07, (30, 49): 6.263510131835938e-07, (30, 50): 6.116019897460937e-07, (30, 51): 5.975009765625e-07, (30, 52): 5.797540283203125e-07, (30, 53): 5.428590087890625e-07, (30, 54): 5.317589721679688e-07, (30, 55): 6.24458984375e-07, (30, 56): 5.367999877929688e-07, (30, 57): 4.96052001953125e-07, (30, 58): 5.773540039062501e-07, (30, 59): 4.820029907226563e-07, (31, 1): 5.15656982421875e-07, (31, 2): 7.062050170898438e-07, (31, 3): 5.674030151367188e-07, (31, 4): 6.063070068359376e-07, (31, 5): 6.961589965820313e-07, (31, 6): 5.288079833984375e-07, (31, 7): 5.842559814453126e-07, (31, 8): 5.173499755859375e-07, (31, 9): 5.694509887695313e-07, (31, 10): 5.476530151367188e-07, (31, 11): 5.521030273437501e-07, (31, 12): 7.392509765625001e-07, (31, 13): 7.093029785156251e-07, (31, 14): 7.694569702148438e-07, (31, 15): 5.801530151367187e-07, (31, 16): 6.116019897460937e-07, (31, 17): 5.050010070800782e-07, (31, 18): 6.252550048828126e-07, (31, 19): 5.754559936523438e-07, (31, 20): 6.140070190429688e-07, (31, 21): 5.427030029296876e-07, (31, 22): 5.103030090332032e-07, (31, 23): 4.4135000610351567e-07, (31, 24): 6.849010009765625e-07, (31, 25): 5.17208984375e-07, (31, 26): 5.424019775390625e-07, (31, 27): 6.752509765625e-07, (31, 28): 4.607550048828125e-07, (31, 29): 5.005079956054688e-07, (31, 30): 5.414000244140625e-07, (31, 31): 5.667509765625e-07, (31, 32): 5.753020019531251e-07, (31, 33): 6.008560180664063e-07, (31, 34): 5.429019775390626e-07, (31, 35): 5.833519897460938e-07, (31, 36): 6.372529907226563e-07, (31, 37): 5.988519897460938e-07, (31, 38): 5.090509948730469e-07, (31, 39): 5.84551025390625e-07, (31, 40): 6.025579833984375e-07, (31, 41): 5.6835302734375e-07, (31, 42): 7.610560302734375e-07, (31, 43): 6.0510302734375e-07, (31, 44): 4.614519958496094e-07, (31, 45): 6.145520019531251e-07, (31, 46): 5.19656005859375e-07, (31, 47): 5.202050170898438e-07, (31, 48): 5.724539794921875e-07, (31, 49): 4.864070129394532e-07, (31, 50): 5.463590087890626e-07, (31, 51): 5.681519775390626e-07, (31, 52): 5.374530029296875e-07, (31, 53): 5.276580200195313e-07, (31, 54): 5.04052001953125e-07, (31, 55): 4.956059875488282e-07, (31, 56): 6.176510009765626e-07, (31, 57): 5.123549804687501e-07, (31, 58): 4.304519958496094e-07, (31, 59): 7.5185400390625e-07, (31, 60): 8.182570190429688e-07, (32, 1): 8.190050048828125e-07, (32, 2): 6.039050292968751e-07, (32, 3): 7.804509887695313e-07, (32, 4): 7.344569702148438e-07, (32, 5): 7.037579956054688e-07, (32, 6): 6.853070068359376e-07, (32, 7): 7.552520141601563e-07, (32, 8): 7.011530151367188e-07, (32, 9): 6.644030151367188e-07, (32, 10): 6.1335400390625e-07, (32, 11): 4.973569946289062e-07, (32, 12): 4.87552001953125e-07, (32, 13): 4.925069885253907e-07, (32, 14): 5.587069702148438e-07, (32, 15): 6.18302978515625e-07, (32, 16): 6.248020019531251e-07, (32, 17): 4.966560058593751e-07, (32, 18): 6.717000122070313e-07, (32, 19): 6.996090087890625e-07, (32, 20): 5.60301025390625e-07, (32, 21): 7.196589965820313e-07, (32, 22): 6.497020263671876e-07, (32, 23): 6.559580078125e-07, (32, 24): 5.044519958496094e-07, (32, 25): 5.327059936523438e-07, (32, 26): 5.555529785156251e-07, (32, 27): 5.290050048828126e-07, (32, 28): 6.988499755859376e-07, (32, 29): 6.028060302734375e-07, (32, 30): 7.000540161132813e-07, (32, 31): 4.884570007324219e-07, (32, 32): 6.213569946289062e-07, (32, 33): 5.755499877929687e-07, (32, 34): 5.080060119628907e-07, (32, 35): 5.007579956054688e-07, (32, 36): 6.151539916992188e-07, (32, 37): 5.862579956054688e-07, (32, 38): 5.741589965820312e-07, (32, 39): 5.523070068359375e-07, (32, 40): 6.386019897460938e-07, (32, 41): 6.243049926757813e-07, (32, 42): 5.253540039062501e-07, (32, 43): 5.749000244140625e-07, (32, 44): 4.846579895019532e-07, (32, 45): 5.098529968261719e-07, (32, 46): 6.938020019531251e-07, (32, 47): 6.630029907226563e-07, (32, 48): 6.197089843750001e-07, (32, 49): 4.666539916992188e-07, (32, 50): 6.0685302734375e-07, (32, 51): 5.40302001953125e-07, (32, 52): 7.072540283203126e-07, (32, 53): 6.967020263671876e-07, (32, 54): 6.714019775390626e-07, (32, 55): 6.497570190429688e-07, (32, 56): 6.857999877929688e-07, (32, 59): 6.184019775390625e-07, (32, 60): 7.294589843750001e-07, (33, 1): 6.119509887695312e-07, (33, 2): 5.530009765625001e-07, (33, 3): 5.702009887695313e-07, (33, 4): 6.278079833984375e-07, (33, 5): 5.862540283203125e-07, (33, 6): float('nan'), (33, 7): 5.205e-07, (33, 8): 6.629050292968751e-07, (33, 9): 6.586530151367188e-07, (33, 10): 6.555560302734376e-07, (33, 11): 5.521589965820313e-07, (33, 12): 6.7710498046875e-07, (33, 13): 6.857579956054688e-07, (33, 14): 6.164539794921875e-07, (33, 15): 4.946589965820313e-07, (33, 16): 5.184539794921876e-07, (33, 17): 6.356030273437501e-07, (33, 18): 6.361550292968751e-07, (33, 19): 7.259550170898438e-07, (33, 20): 6.340009765625e-07, (33, 21): 6.063040161132813e-07, (33, 22): 5.913040161132813e-07, (33, 23): 5.652559814453125e-07, (33, 24): 5.208060302734375e-07, (33, 25): 5.357550048828125e-07, (33, 26): 5.133569946289063e-07, (33, 27): 5.257570190429688e-07, (33, 28): 6.28905029296875e-07, (33, 29): 5.97708984375e-07, (33, 30): 6.356010131835938e-07, (33, 31): 5.672000122070313e-07, (33, 32): 5.606589965820313e-07, (33, 33): 5.34e-07, (33, 34): 5.482589721679688e-07, (33, 35): 6.312039794921876e-07, (33, 36): 5.97051025390625e-07, (33, 37): 5.719550170898438e-07, (33, 38): 4.787569885253906e-07, (33, 39): 5.374580078125e-07, (33, 40): 5.726019897460938e-07, (33, 41): 5.741560058593751e-07, (33, 42): 6.143519897460938e-07, (33, 43): 5.909039916992188e-07, (33, 44): 4.874509887695313e-07, (33, 45): 6.19208984375e-07, (33, 46): 4.872510070800782e-07, (33, 47): 5.9675e-07, (33, 48): 5.697570190429688e-07, (33, 49): 5.500520019531251e-07, (33, 50): 6.290040283203125e-07, (33, 51): 5.225050048828125e-07, (33, 52): 5.876079711914063e-07, (33, 53): 5.497579956054688e-07, (33, 54): 5.262059936523438e-07, (33, 55): 5.44155029296875e-07, (33, 56): 6.104530029296876e-07, (33, 57): 6.268519897460938e-07, (33, 58): 5.457039794921875e-07, (33, 59): 4.6990301513671876e-07, (33, 60): 4.5935900878906255e-07, (34, 1): 5.503010253906251e-07, (34, 2): 5.195079956054687e-07, (34, 3): 5.849550170898438e-07, (34, 4): 5.715079956054688e-07, (34, 5): 7.01656982421875e-07, (34, 6): 5.509509887695313e-07, (34, 7): 5.517509765625001e-07, (34, 8): 5.59905029296875e-07, (34, 9): 5.71406982421875e-07, (34, 10): 6.030570068359376e-07, (34, 16): 6.414569702148438e-07, (34, 18): 5.666589965820313e-07, (34, 19): 5.750070190429688e-07, (34, 20): 4.972000122070313e-07, (34, 21): 4.588510131835938e-07, (34, 23): 6.37552978515625e-07, (34, 24): 6.25301025390625e-07, (34, 25): 5.494530029296876e-07, (34, 26): 5.054580078125e-07, (34, 27): 5.561589965820313e-07, (34, 28): 5.397559814453125e-07, (34, 29): 6.351580200195313e-07, (34, 30): 5.887039794921876e-07, (34, 31): 4.989570007324219e-07, (34, 32): 4.814549865722657e-07, (34, 33): 6.321069946289063e-07, (34, 34): 5.119049987792969e-07, (34, 35): 5.25302001953125e-07, (34, 36): 5.309520263671875e-07, (34, 37): 4.929519958496094e-07, (34, 38): 5.487589721679688e-07, (34, 39): 5.933070068359376e-07, (34, 40): 5.8835400390625e-07, (34, 41): 5.127570190429687e-07, (34, 42): 5.635059814453125e-07, (34, 43): 5.915499877929688e-07, (34, 44): 5.868579711914063e-07, (34, 45): 4.970559997558594e-07, (34, 46): 4.4840399169921875e-07, (34, 47): 4.812999877929687e-07, (34, 48): 4.6810198974609376e-07, (34, 49): 5.336069946289063e-07, (34, 50): 4.725029907226563e-07, (34, 51): 5.013540039062501e-07, (34, 52): 5.650499877929688e-07, (34, 53): 5.318499755859375e-07, (34, 54): 6.091519775390626e-07, (34, 55): 5.655560302734376e-07, (34, 56): 5.229539794921875e-07, (34, 57): 4.907090148925781e-07, (34, 58): 5.3160400390625e-07, (34, 59): 5.61406982421875e-07, (34, 60): 6.012550048828126e-07, (35, 1): 5.037999877929687e-07, (35, 2): 5.32655029296875e-07, (35, 3): 5.857000122070313e-07, (35, 4): 6.93052978515625e-07, (35, 5): 5.867059936523438e-07, (35, 6): 5.575000000000001e-07, (35, 7): 5.069559936523438e-07, (35, 8): 6.550999755859376e-07, (35, 9): 4.747999877929688e-07, (35, 10): 5.40802001953125e-07, (35, 11): 5.7685302734375e-07, (35, 12): 6.130029907226563e-07, (35, 13): 6.620029907226563e-07, (35, 14): 5.385570068359376e-07, (35, 15): 5.887589721679688e-07, (35, 16): 6.473079833984375e-07, (35, 17): 5.9610498046875e-07, (35, 18): 5.753060302734376e-07, (35, 19): 5.988060302734375e-07, (35, 20): 5.796079711914063e-07, (35, 21): 5.326010131835938e-07, (35, 22): 6.199019775390625e-07, (35, 23): 6.236550292968751e-07, (35, 24): 5.744019775390625e-07, (35, 25): 5.289509887695313e-07, (35, 26): 5.226069946289062e-07, (35, 27): 5.391589965820313e-07, (35, 28): 5.17208984375e-07, (35, 29): 5.577080078125001e-07, (35, 30): 6.35156005859375e-07, (35, 31): 5.120009765625e-07, (35, 32): 5.207550048828126e-07, (35, 33): 4.88552001953125e-07, (35, 34): 4.801589965820313e-07, (35, 35): 5.043009948730469e-07, (35, 36): 5.1460400390625e-07, (35, 37): 5.659089965820313e-07, (35, 38): 4.892049865722656e-07, (35, 39): 4.5800299072265626e-07, (35, 40): 4.5950601196289064e-07, (35, 41): 4.767539978027344e-07, (35, 42): 5.049509887695312e-07, (35, 43): 6.200579833984376e-07, (35, 44): 4.708590087890625e-07, (35, 45): 5.215040283203125e-07, (35, 46): 4.412590026855469e-07, (35, 47): 4.2660598754882815e-07, (35, 48): 5.409089965820313e-07, (35, 49): 4.846050109863282e-07, (35, 50): 5.145e-07, (35, 51): 5.952559814453126e-07, (35, 52): 4.940000000000001e-07, (35, 53): 4.4480899047851566e-07, (35, 54): 4.703569946289063e-07, (35, 55): 4.465090026855469e-07, (35, 56): 4.88552001953125e-07, (35, 57): 7.554580078125001e-07, (35, 58): 7.124019775390626e-07, (35, 59): 7.0925e-07, (35, 60): 7.559550170898438e-07, (36, 1): 5.797080078125e-07, (36, 2): 7.227020263671875e-07, (36, 3): 5.862999877929688e-07, (36, 4): 5.899580078125e-07, (36, 5): 5.883079833984375e-07, (36, 6): 6.703569946289063e-07, (36, 7): 5.943510131835938e-07, (36, 8): 6.607509765625e-07, (36, 9): 5.865070190429688e-07, (36, 10): 5.599080200195313e-07, (36, 11): 6.821539916992188e-07, (36, 12): 5.424039916992188e-07, (36, 13): 5.89051025390625e-07, (36, 14): 5.199000244140625e-07, (36, 15): 6.317999877929688e-07, (36, 16): 5.637589721679688e-07, (36, 17): 5.680540161132813e-07, (36, 18): 6.860540161132813e-07, (36, 19): 4.777510070800781e-07, (36, 20): 5.674530029296875e-07, (36, 21): 4.823089904785156e-07, (36, 22): 5.042080078125001e-07, (36, 23): 4.857999877929688e-07, (36, 24): 5.330549926757812e-07, (36, 25): 5.882009887695313e-07, (36, 26): 5.575040283203126e-07, (36, 27): 6.129010009765625e-07, (36, 28): 5.479589843750001e-07, (36, 29): 4.961549987792969e-07, (36, 30): 4.946589965820313e-07, (36, 31): 3.9180398559570314e-07, (36, 32): 5.007040100097656e-07, (36, 33): 5.1660302734375e-07, (36, 34): 4.7810400390625e-07, (36, 35): 4.4120901489257816e-07, (36, 36): 5.803540039062501e-07, (36, 37): 5.1085400390625e-07, (36, 38): 5.1060400390625e-07, (36, 39): 6.598060302734376e-07, (36, 40): 5.699520263671875e-07, (36, 41): 6.052589721679687e-07, (36, 42): 4.6590798950195313e-07, (36, 43): 5.26302001953125e-07, (36, 44): 7.050079956054688e-07, (36, 45): 5.143530273437501e-07, (36, 46): 6.856060180664063e-07, (36, 47): 5.997509765625001e-07, (36, 48): 5.643499755859375e-07, (36, 49): 7.085590209960938e-07, (36, 50): 7.201019897460938e-07, (36, 51): 6.289500122070313e-07, (36, 52): 5.9010302734375e-07, (36, 53): 5.214019775390625e-07, (36, 54): 5.61e-07, (36, 55): 6.354010009765625e-07, (36, 56): 5.187520141601563e-07, (36, 57): 5.984569702148438e-07, (36, 58): 5.967000122070312e-07, (36, 59): 5.90302978515625e-07, (36, 60): 4.5145599365234376e-07, (37, 1): 7.046040039062501e-07, (37, 2): 4.835010070800781e-07, (37, 3): 5.535560302734375e-07, (37, 4): 6.295540161132813e-07, (37, 5): 5.814039916992187e-07, (37, 6): 4.865589904785156e-07, (37, 7): 5.390579833984375e-07, (37, 8): 6.544500122070312e-07, (37, 9): 5.843590087890626e-07, (37, 10): 5.39802001953125e-07, (37, 11): 6.676049804687501e-07, (37, 12): 5.2385302734375e-07, (37, 13): 5.770560302734375e-07, (37, 14): 5.392030029296875e-07, (37, 15): 5.455020141601563e-07, (37, 16): 5.598060302734376e-07, (37, 17): 5.974530029296876e-07, (37, 18): 6.197999877929688e-07, (37, 19): 4.943059997558594e-07, (37, 20): 5.682579956054688e-07, (37, 21): 5.171069946289062e-07, (37, 22): 5.885590209960938e-07, (37, 23): 5.620070190429687e-07, (37, 24): 5.415560302734376e-07, (37, 25): 5.205579833984375e-07, (37, 26): 5.26302978515625e-07, (37, 27): 5.51656982421875e-07, (37, 28): 5.483040161132813e-07, (37, 29): 5.737009887695313e-07, (37, 30): 5.500510253906251e-07, (37, 31): 5.276550292968751e-07, (37, 32): 5.036010131835938e-07, (37, 33): 6.218020019531251e-07, (37, 34): 5.60802001953125e-07, (37, 35): 5.256580200195313e-07, (37, 36): 5.405089721679687e-07, (37, 37): 5.717570190429688e-07, (37, 38): 6.251519775390625e-07, (37, 39): 5.829589843750001e-07, (37, 40): 5.217579956054688e-07, (37, 41): 4.871579895019531e-07, (37, 42): 5.74302978515625e-07, (37, 43): 4.941579895019531e-07, (37, 44): 5.330050048828125e-07, (37, 45): 5.77406005859375e-07, (37, 46): 4.5625e-07, (37, 47): 4.776510009765625e-07, (37, 48): 6.236049804687501e-07, (37, 49): 5.021570129394532e-07, (37, 50): 5.669089965820313e-07, (37, 51): 4.153009948730469e-07, (37, 52): 5.520499877929688e-07, (37, 53): 5.55302001953125e-07, (37, 54): 4.753999938964844e-07, (37, 55): 6.041519775390625e-07, (37, 56): 5.571560058593751e-07, (37, 57): 4.874030151367188e-07, (37, 58): 5.400070190429688e-07, (37, 59): 4.793059997558594e-07, (37, 60): 4.3055899047851565e-07, (38, 1): 6.077080078125e-07, (38, 2): 5.82301025390625e-07, (38, 3): 5.480499877929688e-07, (38, 4): 5.461090087890626e-07, (38, 5): 5.317069702148438e-07, (38, 6): 5.090029907226563e-07, (38, 7): 5.840540161132812e-07, (38, 8): 5.089540100097656e-07, (38, 9): 5.592579956054688e-07, (38, 10): 7.050020141601563e-07, (38, 11): 5.045010070800781e-07, (38, 12): 5.820570068359376e-07, (38, 13): 5.284500122070313e-07, (38, 14): 5.116029968261719e-07, (38, 15): 6.064060058593751e-07, (38, 16): 5.070589904785157e-07, (38, 17): 5.983549804687501e-07, (38, 18): 5.999530029296875e-07, (38, 19): 4.6645401000976564e-07, (38, 20): 4.572590026855469e-07, (38, 21): 5.917589721679688e-07, (38, 22): 5.090069885253907e-07, (38, 23): 6.376550292968751e-07, (38, 24): 5.564019775390625e-07, (38, 25): 4.712560119628907e-07, (38, 26): 4.645029907226563e-07, (38, 27): 4.4770300292968754e-07, (38, 28): 5.860549926757813e-07, (38, 29): 5.055559997558594e-07, (38, 30): 4.459039916992188e-07, (38, 31): 4.285090026855469e-07, (38, 32): 6.36406005859375e-07, (38, 33): 4.364030151367188e-07, (38, 34): 4.92656005859375e-07, (38, 35): 4.899030151367187e-07, (38, 36): 4.784519958496094e-07, (38, 37): 4.880060119628907e-07, (38, 38): 4.974089965820313e-07, (38, 39): 4.0780801391601567e-07, (38, 40): 4.148529968261719e-07, (38, 41): 5.063059997558594e-07, (38, 42): 5.994080200195313e-07, (38, 43): 4.5615600585937505e-07, (38, 44): 4.6735000610351567e-07, (38, 45): 4.707019958496094e-07, (38, 46): 5.111579895019531e-07, (38, 47): 4.752090148925782e-07, (38, 48): 4.352000122070313e-07, (38, 49): 4.962009887695313e-07, (38, 50): 5.229000244140625e-07, (38, 51): 5.629030151367188e-07, (38, 52): 5.067000122070313e-07, (38, 53): 5.3010400390625e-07, (38, 54): 5.99708984375e-07, (38, 55): 6.865999755859375e-07, (38, 56): 4.855499877929687e-07, (38, 57): 6.274030151367188e-07, (38, 58): 4.290039978027344e-07, (38, 59): 1.2000000476837158e-09, (38, 60): 5.080069885253907e-07, (39, 1): 4.991549987792969e-07, (39, 2): 6.270079956054688e-07, (39, 3): 5.717520141601563e-07, (39, 4): 5.656530151367188e-07, (39, 5): 6.963029785156251e-07, (39, 6): 5.922009887695312e-07, (39, 7): 6.060059814453125e-07, (39, 8): 5.897020263671875e-07, (39, 9): 7.470549926757813e-07, (39, 10): 5.445020141601563e-07, (39, 11): 6.53656982421875e-07, (39, 12): 6.770070190429688e-07, (39, 13): 5.734500122070313e-07, (39, 14): 5.150009765625001e-07, (39, 15): 6.309550170898438e-07, (39, 16): 6.184000244140625e-07, (39, 17): 6.680009765625e-07, (39, 18): 6.962509765625e-07, (39, 19): 4.414580078125e-07, (39, 20): 6.365560302734375e-07, (39, 21): 5.19551025390625e-07, (39, 23): 5.002539978027344e-07, (39, 24): 6.360089721679688e-07, (39, 25): 4.413590087890625e-07, (39, 26): 5.638079833984376e-07, (39, 27): 5.913540039062501e-07, (39, 28): 5.973510131835938e-07, (39, 29): 5.390499877929687e-07, (39, 30): 5.936510009765625e-07, (39, 31): 5.9085400390625e-07, (39, 32): 6.125089721679688e-07, (39, 33): 5.351049804687501e-07, (39, 34): 4.3270901489257816e-07, (39, 35): 4.952009887695313e-07, (39, 36): 5.571060180664063e-07, (39, 37): 4.4605899047851565e-07, (39, 38): 4.537999877929688e-07, (39, 39): 4.772550048828126e-07, (39, 40): 5.465020141601563e-07, (39, 41): 5.148499755859375e-07, (39, 42): 5.368060302734375e-07, (39, 43): 5.18302001953125e-07, (39, 44): 4.7180801391601566e-07, (39, 45): 5.35708984375e-07, (39, 46): 4.835530090332032e-07, (39, 47): 6.101580200195313e-07, (39, 48): 5.442050170898438e-07, (39, 49): 5.3860400390625e-07, (39, 50): 5.462509765625001e-07, (39, 51): 5.134030151367188e-07, (39, 52): 5.384089965820313e-07, (39, 53): 5.718549804687501e-07, (39, 54): 3.780090026855469e-07, (39, 55): 5.309539794921876e-07, (39, 56): 5.622520141601562e-07, (39, 57): 5.6735302734375e-07, (39, 58): 5.72458984375e-07, (39, 59): 3.8904998779296875e-07, (39, 60): 5.130549926757813e-07, (40, 1): 5.681510009765625e-07, (40, 2): 5.984500122070313e-07, (40, 3): 7.166060180664063e-07, (40, 4): 6.086079711914063e-07, (40, 5): 6.138010253906251e-07, (40, 6): 6.692559814453125e-07, (40, 7): 4.5605499267578127e-07, (40, 8): 5.240549926757813e-07, (40, 9): 5.655579833984375e-07, (40, 10): 6.234569702148438e-07, (40, 11): 5.384569702148438e-07, (40, 12): 4.897550048828126e-07, (40, 13): 5.816519775390625e-07, (40, 14): 4.810509948730469e-07, (40, 15): 6.634509887695313e-07, (40, 16): 5.952540283203125e-07, (40, 17): 6.325000000000001e-07, (40, 18): 4.334509887695313e-07, (40, 19): 4.4895401000976565e-07, (40, 20): 5.841019897460938e-07, (40, 21): 4.754570007324219e-07, (40, 22): 6.366090087890626e-07, (40, 23): 4.4370498657226564e-07, (40, 24): 5.54905029296875e-07, (40, 25): 5.513020019531251e-07, (40, 26): 5.307509765625001e-07, (40, 27): 5.33406982421875e-07, (40, 28): 6.325059814453125e-07, (40, 29): 4.5480300903320314e-07, (40, 30): 5.522089843750001e-07, (40, 31): 4.147529907226563e-07, (40, 32): 5.910510253906251e-07, (40, 35): 4.426530151367188e-07, (40, 36): 5.290590209960937e-07, (40, 37): 5.198090209960938e-07, (40, 38): 4.442019958496094e-07, (40, 39): 4.975039978027344e-07, (40, 40): 5.104060058593751e-07, (40, 41): 5.044530029296876e-07, (40, 42): 4.6545901489257813e-07, (40, 43): 5.373090209960938e-07, (40, 44): 5.407529907226562e-07, (40, 45): 5.818579711914063e-07, (40, 46): 3.914580078125e-07, (40, 47): 4.659039916992188e-07, (40, 48): 4.84602996826172e-07, (40, 49): 5.864569702148438e-07, (40, 50): 5.800549926757813e-07, (40, 53): 4.734010009765625e-07, (40, 54): 5.659000244140626e-07, (40, 55): 4.810039978027344e-07, (40, 56): 5.416519775390626e-07, (40, 57): 4.925589904785156e-07, (40, 58): 5.128079833984376e-07, (40, 59): 4.957510070800782e-07, (40, 60): 4.784590148925782e-07, (41, 1): 6.142050170898438e-07, (41, 2): 6.0760498046875e-07, (41, 3): 5.732550048828125e-07, (41, 4): 5.744019775390625e-07, (41, 5): 6.241530151367188e-07, (41, 6): 6.329500122070313e-07, (41, 7): 5.355029907226563e-07, (41, 8): 5.540040283203125e-07, (41, 9): 5.450579833984375e-07, (41, 10): 5.522080078125001e-07, (41, 11): 5.277570190429688e-07, (41, 12): 5.999509887695313e-07, (41, 13): 6.102540283203125e-07, (41, 14): 4.813059997558594e-07, (41, 15): 5.997020263671875e-07, (41, 16): 5.259080200195313e-07, (41, 17): 5.933590087890625e-07, (41, 18): 4.872550048828125e-07, (41, 19): 6.917039794921876e-07, (41, 20): 4.513580017089844e-07, (41, 21): 5.720040283203125e-07, (41, 22): 5.710009765625e-07, (41, 23): 5.62405029296875e-07, (41, 24): 4.954549865722657e-07, (41, 25): 4.957059936523438e-07, (41, 26): 5.220050048828126e-07, (41, 27): 4.868529968261719e-07, (41, 28): 5.493560180664063e-07, (41, 29): 5.614509887695313e-07, (41, 30): 6.2360302734375e-07, (41, 31): 5.172559814453125e-07, (41, 32): 6.277999877929687e-07, (41, 33): 4.664500122070313e-07, (41, 34): 4.844509887695313e-07, (41, 35): 5.016090087890625e-07, (41, 36): 5.680549926757813e-07, (41, 37): 4.862019958496094e-07, (41, 38): 5.87302978515625e-07, (41, 39): 4.929549865722657e-07, (41, 40): 4.6175e-07, (41, 41): 5.728590087890626e-07, (41, 42): 5.457579956054688e-07, (41, 43): 6.213590087890625e-07, (41, 44): 5.77301025390625e-07, (41, 45): 5.328049926757813e-07, (41, 46): 5.376079711914063e-07, (41, 47): 4.6255801391601565e-07, (41, 48): 5.023590087890625e-07, (41, 49): 4.348580017089844e-07, (41, 50): 4.70406005859375e-07, (41, 51): 5.774530029296875e-07, (41, 52): 4.7625698852539065e-07, (41, 53): 4.7350000000000005e-07, (41, 54): 4.421530151367188e-07, (41, 55): 5.159019775390625e-07, (41, 56): 4.997500000000001e-07, (41, 57): 5.718560180664063e-07, (41, 58): 4.541029968261719e-07, (41, 59): 4.875530090332032e-07, (41, 60): 4.944540100097657e-07, (42, 1): 6.248070068359375e-07, (42, 2): 5.734520263671875e-07, (42, 3): 5.061069946289063e-07, (42, 4): 5.771589965820313e-07, (42, 5): 5.434019775390625e-07, (42, 6): 5.51301025390625e-07, (42, 7): 6.1885498046875e-07, (42, 8): 6.02552001953125e-07, (42, 9): 5.385079956054688e-07, (42, 10): 6.966569824218751e-07, (42, 11): 5.945579833984376e-07, (42, 12): 5.966510009765626e-07, (42, 13): 5.455009765625e-07, (42, 14): 5.98958984375e-07, (42, 15): 5.738590087890625e-07, (42, 16): 5.8235302734375e-07, (42, 17): 5.81656005859375e-07, (42, 18): 5.969080200195312e-07, (42, 19): 6.10406005859375e-07, (42, 20): 6.647559814453125e-07, (42, 21): 5.813519897460938e-07, (42, 22): 4.235090026855469e-07, (42, 23): 4.301029968261719e-07, (42, 24): 6.309019775390625e-07, (42, 25): 5.470499877929688e-07, (42, 26): 5.805999755859375e-07, (42, 27): 5.702550048828126e-07, (42, 28): 6.059530029296876e-07, (42, 29): 5.284019775390625e-07, (42, 30): 4.990589904785156e-07, (42, 31): 5.625529785156251e-07, (42, 32): 6.347589721679688e-07, (42, 33): 5.569060058593751e-07, (42, 34): 4.3075698852539067e-07, (42, 35): 6.393049926757813e-07, (42, 36): 6.465579833984376e-07, (42, 37): 6.1710498046875e-07, (42, 38): 5.637589721679688e-07, (42, 39): 5.858519897460938e-07, (42, 40): 4.4945401000976563e-07, (42, 41): 4.978580017089844e-07, (42, 42): 4.934519958496094e-07, (42, 43): 5.374550170898438e-07, (42, 44): 5.468579711914063e-07, (42, 45): 5.726519775390626e-07, (42, 46): 5.754569702148438e-07, (42, 49): 5.352509765625e-07, (42, 50): 5.202520141601563e-07, (42, 51): 4.727070007324219e-07, (42, 52): 5.546500244140626e-07, (42, 53): 5.929500122070313e-07, (42, 54): 4.4695498657226567e-07, (42, 55): 5.185089721679688e-07, (42, 56): 5.597059936523437e-07, (42, 57): 5.681519775390626e-07, (42, 58): 5.374080200195313e-07, (42, 59): 5.830579833984375e-07, (42, 60): 5.72802978515625e-07, (43, 1): 5.801519775390625e-07, (43, 2): 5.457999877929688e-07, (43, 3): 5.951560058593751e-07, (43, 4): 5.415999755859375e-07, (43, 5): 6.459050292968751e-07, (43, 6): 5.701539916992187e-07, (43, 7): 8.090520019531251e-07, (43, 8): 5.809000244140625e-07, (43, 9): 6.820089721679688e-07, (43, 10): 7.087009887695313e-07, (43, 11): 7.39302001953125e-07, (43, 12): 6.347550048828126e-07, (43, 13): 5.764000244140625e-07, (43, 14): 5.257020263671876e-07, (43, 15): 6.004080200195313e-07, (43, 16): 6.938010253906251e-07, (43, 17): 6.112000122070313e-07, (43, 18): 5.366510009765625e-07, (43, 19): 6.773590087890626e-07, (43, 20): 6.794010009765625e-07, (43, 21): 6.665050048828125e-07, (43, 22): 5.50906982421875e-07, (43, 23): 5.518590087890626e-07, (43, 24): 5.776090087890625e-07, (43, 25): 6.361079711914063e-07, (43, 26): 6.2310400390625e-07, (43, 27): 6.281589965820313e-07, (43, 28): 5.961569824218751e-07, (43, 29): 5.509500122070313e-07, (43, 30): 6.76156982421875e-07, (43, 31): 5.146010131835937e-07, (43, 32): 6.405040283203125e-07, (43, 33): 5.969050292968751e-07, (43, 34): 5.521580200195313e-07, (43, 35): 6.710499877929688e-07, (43, 36): 6.592529907226562e-07, (43, 37): 6.233079833984375e-07, (43, 38): 6.565040283203126e-07, (43, 39): 6.572520141601563e-07, (43, 40): 4.6945901489257817e-07, (43, 41): 6.257000122070313e-07, (43, 42): 5.808020019531251e-07, (43, 43): 5.889500122070313e-07, (43, 44): 5.9960302734375e-07, (43, 45): 5.629060058593751e-07, (43, 46): 7.293090209960938e-07, (43, 47): 5.971010131835938e-07, (43, 48): 5.495040283203125e-07, (43, 49): 5.948070068359376e-07, (43, 50): 5.482559814453125e-07, (43, 51): 6.1585498046875e-07, (43, 52): 6.458519897460938e-07, (43, 53): 6.720009765625e-07, (43, 54): 4.1490798950195317e-07, (43, 55): 7.587020263671876e-07, (43, 56): 5.684069824218751e-07, (43, 57): 5.962509765625e-07, (43, 58): 4.401549987792969e-07, (43, 59): 5.2460400390625e-07, (43, 60): 6.155059814453125e-07, (44, 1): 7.13802978515625e-07, (44, 2): 6.445070190429688e-07, (44, 3): 6.075079956054688e-07, (44, 4): 5.834550170898438e-07, (44, 5): 5.941510009765626e-07, (44, 6): 5.213510131835938e-07, (44, 7): 6.095089721679687e-07, (44, 8): 6.289039916992188e-07, (44, 9): 5.32e-07, (44, 10): 6.091079711914063e-07, (44, 11): 5.133090209960938e-07, (44, 12): 5.779010009765625e-07, (44, 13): 6.735560302734375e-07, (44, 14): 5.589589843750001e-07, (44, 15): 5.911500244140626e-07, (44, 16): 6.580059814453125e-07, (44, 17): 5.592080078125001e-07, (44, 18): 6.412540283203125e-07, (44, 19): 6.040089721679687e-07, (44, 20): 5.181530151367187e-07, (44, 21): 5.230020141601563e-07, (44, 22): 6.283540039062501e-07, (44, 23): 5.174500122070313e-07, (44, 24): 5.082579956054687e-07, (44, 27): 5.388590087890625e-07, (44, 28): 5.480999755859375e-07, (44, 29): 5.682540283203125e-07, (44, 30): 5.9360302734375e-07, (44, 31): 5.592589721679688e-07, (44, 32): 5.997500000000001e-07, (44, 33): 5.535560302734375e-07, (44, 34): 5.564589843750001e-07, (44, 35): 5.522009887695313e-07, (44, 36): 5.51155029296875e-07, (44, 37): 5.633510131835938e-07, (44, 38): 5.003030090332032e-07, (44, 39): 5.028550109863282e-07, (44, 40): 4.704580078125e-07, (44, 41): 5.847039794921876e-07, (44, 42): 5.135070190429688e-07, (44, 43): 5.415579833984375e-07, (44, 44): 5.978569946289063e-07, (44, 45): 5.039049987792969e-07, (44, 46): 5.347009887695313e-07, (44, 49): 5.613049926757812e-07, (44, 50): 5.648560180664063e-07, (44, 51): 5.639559936523437e-07, (44, 52): 5.125089721679688e-07, (44, 53): 5.722020263671876e-07, (44, 54): 4.759030151367188e-07, (44, 55): 5.345560302734376e-07, (44, 56): 5.193010253906251e-07, (44, 57): 4.980530090332031e-07, (44, 58): 5.0175e-07, (44, 59): 6.094539794921875e-07, (44, 60): 3.8125100708007813e-07, (45, 1): 7.102589721679688e-07, (45, 2): 5.719589843750001e-07, (45, 3): 5.972999877929688e-07, (45, 4): 6.406539916992187e-07, (45, 5): 5.99906005859375e-07, (45, 6): 6.498510131835938e-07, (45, 7): 6.235560302734375e-07, (45, 8): 6.683060302734376e-07, (45, 9): 5.690540161132813e-07, (45, 10): 6.370059814453125e-07, (45, 11): 5.335089721679687e-07, (45, 12): 5.817529907226562e-07, (45, 13): 6.443499755859375e-07, (45, 14): 6.916069946289063e-07, (45, 15): 5.429069824218751e-07, (45, 16): 4.501029968261719e-07, (45, 17): 4.344509887695313e-07, (45, 18): 6.427529907226563e-07, (45, 19): float('nan'), (45, 20): 5.755e-07, (45, 21): 4.6620599365234376e-07, (45, 22): 4.820549926757813e-07, (45, 23): 6.690029907226563e-07, (45, 24): 5.36551025390625e-07, (45, 25): 4.244509887695313e-07, (45, 26): 7.103499755859375e-07, (45, 27): 5.19552978515625e-07, (45, 28): 5.154089965820313e-07, (45, 29): 4.6035198974609376e-07, (45, 30): 5.595540161132813e-07, (45, 31): 5.321049804687501e-07, (45, 32): 4.451510009765625e-07, (45, 33): 6.286519775390625e-07, (45, 34): 5.448540039062501e-07, (45, 35): 4.5540899658203126e-07, (45, 36): 4.976000061035156e-07, (45, 37): 6.34802001953125e-07, (45, 38): 5.002510070800781e-07, (45, 39): 6.623029785156251e-07, (45, 40): 6.357529907226563e-07, (45, 41): 5.520059814453125e-07, (45, 42): 5.4425e-07, (45, 43): 5.902589721679688e-07, (45, 44): 4.7450100708007814e-07, (45, 45): 6.025499877929688e-07, (45, 46): 4.6590899658203126e-07, (45, 47): 4.712019958496094e-07, (45, 48): 5.392000122070313e-07, (45, 49): 5.811550292968751e-07, (45, 50): 5.59406982421875e-07, (45, 51): 5.607589721679688e-07, (45, 52): 5.791500244140625e-07, (45, 53): 5.907559814453125e-07, (45, 54): 5.841090087890626e-07, (45, 55): 6.064060058593751e-07, (45, 56): 5.509509887695313e-07, (45, 57): 5.671560058593751e-07, (45, 58): 6.2310400390625e-07, (45, 59): 5.387550048828125e-07, (45, 60): 5.53052001953125e-07, (46, 1): 6.533499755859376e-07, (46, 2): 6.1535302734375e-07, (46, 3): 6.508560180664063e-07, (46, 4): 4.817560119628906e-07, (46, 5): 5.308090209960938e-07, (46, 6): 4.6550698852539063e-07, (46, 7): 5.464019775390625e-07, (46, 8): 6.942500000000001e-07, (46, 9): 5.862589721679688e-07, (46, 10): 6.501019897460938e-07, (46, 11): 5.100020141601562e-07, (46, 12): 5.5010400390625e-07, (46, 13): 5.260089721679688e-07, (46, 14): 7.038070068359375e-07, (46, 15): 5.482080078125001e-07, (46, 16): 5.72458984375e-07, (46, 17): 6.569030151367188e-07, (46, 18): 5.898499755859375e-07, (46, 19): 6.455570068359376e-07, (46, 20): 5.20906982421875e-07, (46, 21): 6.341019897460938e-07, (46, 22): 4.802560119628906e-07, (46, 23): 6.326040039062501e-07, (46, 24): 5.221079711914063e-07, (46, 25): 4.218580017089844e-07, (46, 26): 6.038590087890626e-07, (46, 27): 5.63e-07, (46, 28): 5.315089721679688e-07, (46, 29): 4.997579956054687e-07, (46, 30): 5.367559814453125e-07, (46, 31): 5.071090087890625e-07, (46, 32): 5.23801025390625e-07, (46, 33): 6.038060302734375e-07, (46, 34): 5.329539794921875e-07, (46, 35): 4.856549987792969e-07, (46, 36): 5.802579956054687e-07, (46, 37): 5.383560180664062e-07, (46, 38): 5.746510009765625e-07, (46, 39): 5.424000244140625e-07, (46, 40): 5.16302978515625e-07, (46, 41): 5.012030029296875e-07, (46, 42): 5.097040100097657e-07, (46, 43): 4.853039855957031e-07, (46, 44): 5.445079956054688e-07, (46, 45): 4.6795498657226566e-07, (46, 46): 5.830020141601563e-07, (46, 47): 5.366069946289063e-07, (46, 48): 4.926539916992187e-07, (46, 49): 5.855510253906251e-07, (46, 50): 5.709019775390625e-07, (46, 51): 5.888090209960938e-07, (46, 52): 5.398040161132813e-07, (46, 53): 5.041000061035157e-07, (46, 54): 4.6055300903320315e-07, (46, 55): 6.333510131835938e-07, (46, 56): 6.006090087890625e-07, (46, 57): 6.4675e-07, (46, 58): 5.324589843750001e-07, (46, 59): 4.967019958496094e-07, (46, 60): 5.302050170898437e-07, (47, 1): 7.456539916992188e-07, (47, 2): 7.180070190429688e-07, (47, 3): 7.852529907226563e-07, (47, 4): 4.295509948730469e-07, (47, 5): 6.271010131835938e-07, (47, 6): 6.685070190429688e-07, (47, 7): 6.809030151367188e-07, (47, 8): 6.236500244140626e-07, (47, 9): 7.062589721679688e-07, (47, 10): 6.046010131835938e-07, (47, 11): 6.535070190429688e-07, (47, 12): 6.905570068359376e-07, (47, 13): 4.986080017089844e-07, (47, 14): 5.538499755859375e-07, (47, 15): 5.772089843750001e-07, (47, 16): 7.460059814453126e-07, (47, 17): 6.560029907226563e-07, (47, 18): 4.83406005859375e-07, (47, 19): 5.244010009765625e-07, (47, 20): 5.827550048828126e-07, (47, 21): 7.152059936523438e-07, (47, 22): 7.151010131835938e-07, (47, 23): 6.627559814453126e-07, (47, 24): 5.523519897460937e-07, (47, 25): 6.980520019531251e-07, (47, 26): 5.652020263671876e-07, (47, 27): 5.1775e-07, (47, 28): 5.507069702148438e-07, (47, 29): 5.6110498046875e-07, (47, 30): 5.999080200195313e-07, (47, 31): 6.078510131835938e-07, (47, 32): 5.240540161132813e-07, (47, 33): 6.184080200195313e-07, (47, 34): 4.899049987792969e-07, (47, 35): 5.327050170898438e-07, (47, 36): 5.32551025390625e-07, (47, 37): 5.289080200195313e-07, (47, 38): 5.183070068359375e-07, (47, 39): 4.4975698852539067e-07, (47, 40): 4.2460198974609377e-07, (47, 41): 5.412999877929688e-07, (47, 42): 6.129530029296876e-07, (47, 43): 4.698580017089844e-07, (47, 44): 4.972560119628906e-07, (47, 45): 5.060549926757813e-07, (47, 46): 4.581530151367188e-07, (47, 47): 5.132540283203125e-07, (47, 48): 4.1150299072265626e-07, (47, 49): 6.526060180664062e-07, (47, 50): 5.847059936523438e-07, (47, 51): 5.8285400390625e-07, (47, 52): 5.254580078125001e-07, (47, 53): 4.626000061035157e-07, (47, 54): 5.314010009765625e-07, (47, 57): 5.873519897460938e-07, (47, 58): 6.115529785156251e-07, (47, 59): 5.937570190429688e-07, (47, 60): 5.097569885253906e-07, (48, 1): 5.567579956054688e-07, (48, 2): 7.184539794921876e-07, (48, 3): 7.09802978515625e-07, (48, 4): 5.989520263671876e-07, (48, 5): 7.656530151367188e-07, (48, 6): 6.179080200195313e-07, (48, 7): 5.204569702148438e-07, (48, 8): 6.471010131835937e-07, (48, 9): 5.4260498046875e-07, (48, 10): 5.682579956054688e-07, (48, 11): 5.892570190429688e-07, (48, 12): 5.334039916992187e-07, (48, 13): 7.487059936523438e-07, (48, 14): 5.29052001953125e-07, (48, 15): 7.36656005859375e-07, (48, 16): 6.730029907226563e-07, (48, 17): 7.191589965820313e-07, (48, 18): 4.616010131835938e-07, (48, 19): 5.406539916992187e-07, (48, 20): 6.23656005859375e-07, (48, 21): 5.328519897460938e-07, (48, 22): 5.100069885253906e-07, (48, 23): 5.664580078125001e-07, (48, 24): 6.341530151367188e-07, (48, 25): 6.375560302734376e-07, (48, 26): 5.68656982421875e-07, (48, 27): 5.198590087890625e-07, (48, 28): 4.1400500488281254e-07, (48, 29): 6.803530273437501e-07, (48, 30): 4.721589965820313e-07, (48, 31): 5.072550048828125e-07, (48, 32): 5.3710498046875e-07, (48, 33): 5.692059936523438e-07, (48, 34): 6.660040283203126e-07, (48, 35): 6.817520141601563e-07, (48, 36): 5.525050048828125e-07, (48, 37): 5.327520141601563e-07, (48, 38): 5.758090209960938e-07, (48, 39): 5.714019775390626e-07, (48, 40): 6.007520141601563e-07, (48, 41): 5.64802978515625e-07, (48, 42): 5.741500244140626e-07, (48, 43): 5.420499877929688e-07, (48, 44): 4.834549865722656e-07, (48, 45): 5.571569824218751e-07, (48, 46): 5.266589965820313e-07, (48, 47): 5.186539916992188e-07, (48, 48): 5.787069702148438e-07, (48, 49): 6.012089843750001e-07, (48, 50): 4.741589965820313e-07, (48, 51): 7.450009765625001e-07, (48, 52): 5.49052978515625e-07, (48, 53): 5.542030029296875e-07, (48, 54): 5.085539855957032e-07, (48, 55): 6.005499877929688e-07, (48, 56): 4.6600100708007814e-07, (48, 57): 6.386589965820313e-07, (48, 58): 5.192529907226563e-07, (48, 59): 5.31301025390625e-07, (48, 60): 5.010039978027344e-07, (49, 1): 5.504000244140626e-07, (49, 2): 5.586510009765626e-07, (49, 3): 6.9610498046875e-07, (49, 4): 6.029500122070313e-07, (49, 5): 7.360590209960938e-07, (49, 6): 5.943590087890626e-07, (49, 7): 6.007080078125e-07, (49, 8): 5.600029907226563e-07, (49, 9): 4.968590087890626e-07, (49, 10): 5.808569946289063e-07, (49, 11): 5.813079833984375e-07, (49, 12): 5.99208984375e-07, (49, 13): 5.864010009765625e-07, (49, 14): 6.418090209960937e-07, (49, 15): 6.005579833984376e-07, (49, 16): 5.862570190429688e-07, (49, 17): 4.30052001953125e-07, (49, 18): 5.949520263671876e-07, (49, 19): 6.491079711914063e-07, (49, 20): 6.427509765625e-07, (49, 21): 4.866080017089844e-07, (49, 22): 4.866589965820312e-07, (49, 23): 6.146090087890625e-07, (49, 24): 6.13051025390625e-07, (49, 25): 6.017520141601562e-07, (49, 26): 4.912529907226563e-07, (49, 27): 5.715089721679687e-07, (49, 28): 5.389039916992188e-07, (49, 29): 4.802539978027344e-07, (49, 30): 5.089509887695312e-07, (49, 31): 5.762050170898438e-07, (49, 32): 5.162529907226563e-07, (49, 33): 4.491029968261719e-07, (49, 34): 5.008580017089844e-07, (49, 35): 5.743510131835938e-07, (49, 36): 6.067059936523438e-07, (49, 37): 4.112999877929688e-07, (49, 38): 4.280039978027344e-07, (49, 39): 5.647069702148438e-07, (49, 40): 4.897510070800782e-07, (49, 41): 4.952999877929687e-07, (49, 42): 5.575570068359375e-07, (49, 43): 5.922069702148438e-07, (49, 44): 4.5280300903320315e-07, (49, 45): 6.12655029296875e-07, (49, 46): 6.155579833984376e-07, (49, 47): 5.131510009765625e-07, (49, 48): 4.076080017089844e-07, (49, 49): 5.814500122070313e-07, (49, 50): 5.193079833984375e-07, (49, 51): 5.539530029296876e-07, (49, 52): 5.237009887695313e-07, (49, 53): 4.815000000000001e-07, (49, 54): 5.593579711914063e-07, (49, 57): 5.147529907226563e-07, (49, 58): 4.88e-07, (49, 59): 4.872030029296875e-07, (49, 60): 5.200070190429688e-07, (50, 1): 4.6175e-07, (50, 2): 6.500560302734376e-07, (50, 3): 4.940559997558594e-07, (50, 4): 5.6e-07, (50, 5): 6.866500244140625e-07, (50, 6): 4.803559875488281e-07, (50, 7): 5.932520141601562e-07, (50, 8): 5.584520263671876e-07, (50, 9): 5.59958984375e-07, (50, 10): 4.802090148925782e-07, (50, 11): 6.244069824218751e-07, (50, 12): 5.621030273437501e-07, (50, 13): 5.477009887695313e-07, (50, 14): 6.958549804687501e-07, (50, 15): 5.596500244140625e-07, (50, 16): 4.962529907226563e-07, (50, 17): 4.714079895019532e-07, (50, 18): 5.065010070800782e-07, (50, 19): 4.740559997558594e-07, (50, 20): 5.50802978515625e-07, (50, 21): 4.851589965820313e-07, (50, 22): 6.780070190429688e-07, (50, 23): 4.3180801391601567e-07, (50, 24): 5.341510009765625e-07, (50, 25): 4.707030029296875e-07, (50, 26): 4.506520080566407e-07, (50, 27): 4.5500799560546876e-07, (50, 28): 4.6270901489257814e-07, (50, 29): 6.022589721679688e-07, (50, 30): 4.217070007324219e-07, (50, 31): 5.987080078125001e-07, (50, 32): 4.6879998779296876e-07, (50, 33): 5.570520019531251e-07, (50, 34): 5.962529907226563e-07, (50, 35): 5.765e-07, (50, 37): 4.6755801391601566e-07, (50, 38): 5.053500061035157e-07, (50, 39): 4.6880300903320313e-07, (50, 40): 5.529559936523438e-07, (50, 41): 4.983999938964844e-07, (50, 42): 4.989020080566406e-07, (50, 43): 4.6850601196289063e-07, (50, 44): 5.76458984375e-07, (50, 45): 5.558510131835938e-07, (50, 46): 4.6765798950195316e-07, (50, 47): 5.084500122070313e-07, (50, 48): 4.1195498657226564e-07, (50, 49): 4.684530029296875e-07, (50, 50): 5.009530029296875e-07, (50, 51): 5.5835400390625e-07, (50, 52): 3.865090026855469e-07, (50, 53): 4.803059997558594e-07, (50, 54): 5.669509887695312e-07, (50, 55): 6.557520141601563e-07, (50, 56): 4.820069885253907e-07, (50, 57): 5.97551025390625e-07, (50, 58): 5.595040283203125e-07, (50, 59): 4.930039978027344e-07, (50, 60): 3.823580017089844e-07, (51, 1): 5.3435302734375e-07, (51, 2): 5.730029907226563e-07, (51, 3): 7.49552978515625e-07, (51, 4): 6.336539916992187e-07, (51, 5): 5.718070068359375e-07, (51, 6): 5.87656982421875e-07, (51, 7): 7.013510131835938e-07, (51, 8): 6.031010131835938e-07, (51, 9): 5.75155029296875e-07, (51, 10): 5.480499877929688e-07, (51, 11): 6.334550170898438e-07, (51, 12): 6.619589843750001e-07, (51, 13): 5.26906005859375e-07, (51, 14): 5.106589965820312e-07, (51, 15): 6.193569946289063e-07, (51, 16): 5.928060302734375e-07, (51, 17): 4.948569946289063e-07, (51, 18): 4.758059997558594e-07, (51, 19): 4.832510070800781e-07, (51, 20): 6.705009765625e-07, (51, 21): 5.474539794921875e-07, (51, 22): 5.26551025390625e-07, (51, 23): 6.593070068359375e-07, (51, 24): 4.6840200805664063e-07, (51, 25): 6.205570068359375e-07, (51, 26): 5.072569885253906e-07, (51, 27): 5.232039794921875e-07, (51, 28): 6.742999877929687e-07, (51, 29): 6.657550048828126e-07, (51, 30): 5.5560302734375e-07, (51, 31): 4.4100698852539064e-07, (51, 32): 5.027560119628906e-07, (51, 33): 6.323569946289063e-07, (51, 34): 5.012520141601563e-07, (51, 35): 5.717020263671875e-07, (51, 36): 4.557080078125e-07, (51, 37): 5.513070068359376e-07, (51, 38): 4.4065798950195314e-07, (51, 39): 5.87051025390625e-07, (51, 40): 4.430549926757813e-07, (51, 41): 4.5635900878906253e-07, (51, 42): 5.774000244140626e-07, (51, 43): 4.783070068359375e-07, (51, 44): 4.6604998779296877e-07, (51, 45): 4.88154998779297e-07, (51, 46): 5.892520141601563e-07, (51, 47): 5.438499755859375e-07, (51, 48): 4.7665399169921876e-07, (51, 49): 6.150499877929687e-07, (51, 50): 5.827030029296875e-07, (51, 51): 4.888049926757813e-07, (51, 52): 4.780589904785156e-07, (51, 53): 4.943510131835938e-07, (51, 54): 4.7200698852539064e-07, (51, 55): 5.999550170898438e-07, (51, 56): 4.633569946289063e-07, (51, 57): 5.592030029296875e-07, (51, 58): 4.5365301513671876e-07, (51, 59): 5.038569946289063e-07, (51, 60): 5.370009765625e-07, (52, 1): 6.368070068359375e-07, (52, 2): 7.125079956054688e-07, (52, 3): 7.495540161132813e-07, (52, 4): 7.134569702148438e-07, (52, 5): 6.456019897460938e-07, (52, 6): 6.920999755859375e-07, (52, 7): 4.931520080566406e-07, (52, 8): 5.683040161132813e-07, (52, 9): 6.165079956054688e-07, (52, 10): 5.859589843750001e-07, (52, 11): 6.835579833984376e-07, (52, 12): 7.518499755859375e-07, (52, 13): 6.193079833984375e-07, (52, 14): 5.540079956054688e-07, (52, 15): 6.353540039062501e-07, (52, 16): 6.873540039062501e-07, (52, 17): 6.600040283203125e-07, (52, 18): 5.751589965820313e-07, (52, 19): 7.291060180664063e-07, (52, 20): 5.136510009765626e-07, (52, 21): 6.960050048828125e-07, (52, 22): 5.262509765625001e-07, (52, 23): 5.632009887695313e-07, (52, 24): 6.486090087890625e-07, (52, 25): 5.921539916992188e-07, (52, 26): 6.357570190429688e-07, (52, 27): 5.872039794921876e-07, (52, 28): 6.02406982421875e-07, (52, 29): 5.730570068359375e-07, (52, 30): 5.041000061035157e-07, (52, 31): 5.90656005859375e-07, (52, 32): 5.231060180664063e-07, (52, 33): 5.878070068359376e-07, (52, 34): 5.121560058593751e-07, (52, 35): 5.567039794921875e-07, (52, 36): 5.079509887695313e-07, (52, 37): 6.719019775390625e-07, (52, 38): 5.625520019531251e-07, (52, 39): 5.898560180664063e-07, (52, 40): 5.810079956054688e-07, (52, 41): 5.436060180664063e-07, (52, 42): 6.124089965820313e-07, (52, 43): 6.236519775390625e-07, (52, 44): 5.956500244140626e-07, (52, 45): 5.349000244140626e-07, (52, 46): 4.3325100708007817e-07, (52, 47): 5.585570068359375e-07, (52, 48): 4.408580017089844e-07, (52, 49): 4.794030151367188e-07, (52, 50): 4.1805899047851566e-07, (52, 51): 6.129569702148437e-07, (52, 52): 5.873049926757813e-07, (52, 53): 5.374010009765626e-07, (52, 54): 4.871050109863282e-07, (52, 55): 4.656499938964844e-07, (52, 56): 5.50802978515625e-07, (52, 57): 5.6585302734375e-07, (52, 58): 6.28156982421875e-07, (52, 59): 5.318040161132813e-07, (52, 60): 4.025029907226563e-07, (53, 1): 6.391510009765626e-07, (53, 2): 5.33552001953125e-07, (53, 3): 5.876539916992188e-07, (53, 4): 6.3985400390625e-07, (53, 5): 6.3435400390625e-07, (53, 6): 6.224580078125e-07, (53, 7): 6.91802978515625e-07, (53, 8): 5.399080200195313e-07, (53, 9): 6.069050292968751e-07, (53, 10): 5.533090209960938e-07, (53, 11): 5.420570068359375e-07, (53, 12): 6.994539794921875e-07, (53, 13): 7.035570068359376e-07, (53, 14): 6.098070068359375e-07, (53, 15): 6.168579711914062e-07, (53, 16): 6.328090209960938e-07, (53, 19): 6.535029907226563e-07, (53, 20): 5.49958984375e-07, (53, 21): 6.53156982421875e-07, (53, 22): 6.755520019531251e-07, (53, 23): 6.422059936523438e-07, (53, 24): 5.885540161132813e-07, (53, 25): 6.222570190429688e-07, (53, 26): 5.514539794921875e-07, (53, 27): 6.612509765625e-07, (53, 28): 5.2285498046875e-07, (53, 29): 6.214080200195313e-07, (53, 30): 5.263079833984375e-07, (53, 31): 5.989569702148437e-07, (53, 32): 5.937999877929688e-07, (53, 33): 4.857999877929688e-07, (53, 34): 6.28406982421875e-07, (53, 35): 5.587050170898438e-07, (53, 36): 5.860560302734375e-07, (53, 37): 6.172570190429688e-07, (53, 38): 6.082009887695313e-07, (53, 39): 5.497589721679688e-07, (53, 40): 5.079089965820312e-07, (53, 41): 5.513029785156251e-07, (53, 42): 5.521040039062501e-07, (53, 43): 5.841550292968751e-07, (53, 44): 5.127039794921876e-07, (53, 45): 5.950089721679688e-07, (53, 46): 5.196510009765625e-07, (53, 47): 4.989540100097657e-07, (53, 48): 6.42656005859375e-07, (53, 49): 5.742030029296875e-07, (53, 50): 5.59958984375e-07, (53, 51): 5.484530029296875e-07, (53, 52): 5.3010498046875e-07, (53, 53): 5.067569885253906e-07, (53, 54): 5.111069946289063e-07, (53, 55): 4.741029968261719e-07, (53, 56): 5.350000000000001e-07, (53, 57): 5.882999877929687e-07, (53, 58): 4.276019897460938e-07, (53, 59): 4.828540039062501e-07, (53, 60): 4.361589965820313e-07, (54, 1): 6.174520263671876e-07, (54, 2): 5.933049926757813e-07, (54, 3): 6.671510009765626e-07, (54, 4): 5.012529907226562e-07, (54, 5): 6.67302001953125e-07, (54, 6): 5.754060058593751e-07, (54, 7): 5.194039916992187e-07, (54, 8): 5.194010009765626e-07, (54, 9): 4.959500122070313e-07, (54, 10): 6.766060180664062e-07, (54, 11): 4.7615399169921877e-07, (54, 12): 4.4555899047851566e-07, (54, 13): 5.624039916992188e-07, (54, 14): 5.787999877929688e-07, (54, 15): 5.91656982421875e-07, (54, 16): 7.189019775390626e-07, (54, 17): 5.487069702148438e-07, (54, 18): 7.097589721679688e-07, (54, 19): 5.752999877929688e-07, (54, 20): 4.436080017089844e-07, (54, 21): 5.28656005859375e-07, (54, 22): 6.09302978515625e-07, (54, 23): 6.8785400390625e-07, (54, 24): 5.382579956054688e-07, (54, 25): 4.397539978027344e-07, (54, 26): 4.695e-07, (54, 27): 5.590059814453125e-07, (54, 28): 5.923519897460938e-07, (54, 29): 4.319049987792969e-07, (54, 30): 5.087539978027344e-07, (54, 31): 6.367000122070313e-07, (54, 32): 5.3710400390625e-07, (54, 33): 4.830549926757813e-07, (54, 34): 6.414569702148438e-07, (54, 35): 5.453560180664062e-07, (54, 36): 4.775090026855469e-07, (54, 37): 4.973590087890625e-07, (54, 38): 4.6840798950195316e-07, (54, 39): 5.002000122070313e-07, (54, 40): 5.001080017089844e-07, (54, 41): 4.042070007324219e-07, (54, 42): 5.330059814453125e-07, (54, 43): 5.7360400390625e-07, (54, 44): 5.019030151367188e-07, (54, 45): 5.514030151367188e-07, (54, 46): 4.859010009765625e-07, (54, 48): 4.5990200805664063e-07, (54, 49): 5.28656005859375e-07, (54, 50): 5.910520019531251e-07, (54, 51): 4.7625299072265626e-07, (54, 52): 5.552039794921876e-07, (54, 53): 5.4810498046875e-07, (54, 54): 5.427529907226563e-07, (54, 55): 4.0090600585937503e-07, (54, 56): 4.860020141601562e-07, (54, 57): 4.478580017089844e-07, (54, 58): 5.141500244140625e-07, (54, 59): 5.272059936523437e-07, (54, 60): 4.542520141601563e-07, (55, 1): 6.009580078125e-07, (55, 2): 5.989539794921876e-07, (55, 3): 6.232059936523438e-07, (55, 4): 6.557559814453126e-07, (55, 5): 6.110499877929688e-07, (55, 6): 6.383519897460938e-07, (55, 7): 6.89405029296875e-07, (55, 8): 6.08052001953125e-07, (55, 9): 6.484069824218751e-07, (55, 10): 5.766510009765625e-07, (55, 11): 5.846040039062501e-07, (55, 12): 6.060009765625e-07, (55, 13): 6.3975e-07, (55, 14): 6.174559936523437e-07, (55, 15): 5.577540283203126e-07, (55, 16): 5.439039916992188e-07, (55, 17): 6.146010131835937e-07, (55, 18): 6.005040283203125e-07, (55, 19): 5.425999755859375e-07, (55, 20): 5.786519775390625e-07, (55, 21): 5.519000244140626e-07, (55, 22): 6.075089721679688e-07, (55, 23): 5.462570190429688e-07, (55, 24): 6.275079956054688e-07, (55, 25): 5.810070190429688e-07, (55, 26): 5.72802001953125e-07, (55, 27): 5.835529785156251e-07, (55, 28): 5.973090209960938e-07, (55, 29): 5.847089843750001e-07, (55, 30): 5.180040283203126e-07, (55, 31): 5.172000122070313e-07, (55, 32): 5.897069702148438e-07, (55, 33): 5.91552001953125e-07, (55, 34): 5.337000122070313e-07, (55, 35): 6.05552001953125e-07, (55, 36): 4.515029907226563e-07, (55, 37): 5.812520141601563e-07, (55, 38): 4.7585400390625e-07, (55, 39): 4.723529968261719e-07, (55, 40): 5.944580078125001e-07, (55, 41): 4.8225e-07, (55, 42): 5.254569702148438e-07, (55, 43): 4.657030029296875e-07, (55, 44): 4.83904998779297e-07, (55, 45): 6.214509887695313e-07, (55, 46): 6.102559814453125e-07, (55, 47): 5.524539794921876e-07, (55, 48): 5.773510131835938e-07, (55, 49): 4.951560058593751e-07, (55, 50): 4.843049926757813e-07, (55, 51): 5.802540283203126e-07, (55, 52): 5.657520141601563e-07, (55, 53): 5.255079956054688e-07, (55, 54): 5.481519775390625e-07, (55, 55): 4.673999938964844e-07, (55, 56): 4.3035101318359376e-07, (55, 57): 6.132020263671876e-07, (55, 58): 5.365079956054687e-07, (55, 59): 4.767520141601563e-07, (55, 60): 4.5455398559570314e-07, (56, 1): 6.158560180664062e-07, (56, 2): 6.303079833984375e-07, (56, 3): 5.195549926757813e-07, (56, 4): 6.457020263671876e-07, (56, 5): 5.671530151367188e-07, (56, 6): 6.059030151367188e-07, (56, 7): 5.936530151367188e-07, (56, 8): 6.261060180664063e-07, (56, 9): 7.071530151367187e-07, (56, 10): 7.157039794921876e-07, (56, 11): 6.286530151367188e-07, (56, 12): 6.932529907226563e-07, (56, 13): 5.188499755859375e-07, (56, 14): 6.308079833984375e-07, (56, 15): 5.99906005859375e-07, (56, 16): 6.105510253906251e-07, (56, 17): 5.985020141601563e-07, (56, 18): 5.547550048828126e-07, (56, 19): 6.411530151367188e-07, (56, 20): 6.832559814453125e-07, (56, 21): 5.348070068359375e-07, (56, 22): 5.146079711914063e-07, (56, 23): 5.370089721679688e-07, (56, 24): 6.89708984375e-07, (56, 25): 5.532529907226563e-07, (56, 26): 5.588040161132812e-07, (56, 27): 5.614080200195313e-07, (56, 28): 5.998540039062501e-07, (56, 29): 5.181519775390625e-07, (56, 30): 5.476580200195312e-07, (56, 31): 6.569039916992188e-07, (56, 32): 4.188059997558594e-07, (56, 33): 3.998049926757813e-07, (56, 34): 6.093070068359375e-07, (56, 35): 4.940539855957031e-07, (56, 36): 5.185529785156251e-07, (56, 37): 5.283590087890625e-07, (56, 38): 5.245570068359376e-07, (56, 39): 5.337080078125e-07, (56, 40): 6.024569702148438e-07, (56, 41): 5.020520019531251e-07, (56, 42): 4.482539978027344e-07, (56, 43): 5.408040161132813e-07, (56, 44): 4.3600000000000004e-07, (56, 45): 5.435999755859376e-07, (56, 46): 4.786059875488282e-07, (56, 47): 6.383040161132813e-07, (56, 48): 5.097009887695313e-07, (56, 49): 4.892999877929688e-07, (56, 50): 5.375070190429688e-07, (56, 51): 6.661069946289063e-07, (56, 52): 6.514080200195313e-07, (56, 53): 5.243560180664062e-07, (56, 54): 4.921000061035156e-07, (56, 55): 3.959519958496094e-07, (56, 56): 5.087090148925782e-07, (56, 57): 6.482579956054688e-07, (56, 58): 5.188079833984375e-07, (56, 59): 3.857529907226563e-07, (56, 60): 5.753560180664063e-07, (57, 1): 5.14406005859375e-07, (57, 2): 6.904019775390625e-07, (57, 3): 6.438579711914063e-07, (57, 4): 6.474580078125e-07, (57, 5): 6.273070068359376e-07, (57, 6): 6.909550170898437e-07, (57, 7): 6.816010131835938e-07, (57, 8): 5.236049804687501e-07, (57, 9): 6.777579956054688e-07, (57, 10): 4.6170401000976565e-07, (57, 11): 6.772550048828126e-07, (57, 12): 6.048579711914063e-07, (57, 13): 6.598510131835937e-07, (57, 14): 7.448579711914063e-07, (57, 15): 6.413040161132813e-07, (57, 16): 6.91906982421875e-07, (57, 17): 5.826079711914063e-07, (57, 18): 4.3515399169921876e-07, (57, 19): 6.787509765625001e-07, (57, 20): 5.535029907226562e-07, (57, 21): 6.0435498046875e-07, (57, 22): 4.991029968261719e-07, (57, 23): 5.621589965820313e-07, (57, 24): 4.923039855957031e-07, (57, 25): 5.676040039062501e-07, (57, 26): 6.182999877929688e-07, (57, 27): 5.753070068359376e-07, (57, 28): 6.005070190429688e-07, (57, 29): 5.888579711914063e-07, (57, 30): 4.534519958496094e-07, (57, 31): 5.512540283203125e-07, (57, 32): 5.647999877929688e-07, (57, 33): 4.6355599975585943e-07, (57, 34): 5.805059814453125e-07, (57, 35): 5.502529907226563e-07, (57, 36): 5.464010009765625e-07, (57, 37): 5.289030151367188e-07, (57, 38): 4.910499877929687e-07, (57, 39): 5.186500244140625e-07, (57, 40): 5.909069824218751e-07, (57, 41): 5.224080200195313e-07, (57, 42): 5.297589721679688e-07, (57, 43): 5.353040161132813e-07, (57, 44): 5.300570068359376e-07, (57, 45): 4.1515100097656253e-07, (57, 46): 5.061510009765625e-07, (57, 47): 6.969050292968751e-07, (57, 48): 6.266500244140626e-07, (57, 49): 4.008059997558594e-07, (57, 50): 5.25406982421875e-07, (57, 51): 4.981549987792969e-07, (57, 52): 5.712520141601563e-07, (57, 53): 5.977520141601563e-07, (57, 54): 4.106499938964844e-07, (57, 55): 4.863559875488281e-07, (57, 56): 6.052999877929687e-07, (57, 57): 4.4155398559570317e-07, (57, 58): 4.108009948730469e-07, (57, 59): 4.937510070800782e-07, (57, 60): 6.395579833984376e-07, (58, 1): 6.476060180664063e-07, (58, 2): 6.961500244140625e-07, (58, 3): 6.1810400390625e-07, (58, 4): 5.197999877929688e-07, (58, 5): 6.197509765625e-07, (58, 6): 5.732030029296875e-07, (58, 7): 7.092540283203125e-07, (58, 8): 6.822529907226563e-07, (58, 9): 6.547529907226563e-07, (58, 10): 5.228560180664062e-07, (58, 11): 5.952059936523438e-07, (58, 12): 6.524539794921876e-07, (58, 13): 6.415009765625e-07, (58, 14): 5.975540161132813e-07, (58, 15): 7.121060180664063e-07, (58, 16): 5.099540100097657e-07, (58, 17): 5.867039794921875e-07, (58, 18): 5.529039916992188e-07, (58, 19): 6.21552001953125e-07, (58, 20): 7.274089965820313e-07, (58, 21): 4.962520141601563e-07, (58, 22): 4.7410000610351564e-07, (58, 23): 6.263590087890625e-07, (58, 24): 5.642589721679688e-07, (58, 25): 4.868030090332031e-07, (58, 26): 5.389559936523438e-07, (58, 27): 5.575089721679687e-07, (58, 28): 6.505000000000001e-07, (58, 29): 6.017520141601562e-07, (58, 30): 5.512529907226563e-07, (58, 31): 5.981079711914063e-07, (58, 32): 6.4210302734375e-07, (58, 33): 5.735029907226563e-07, (58, 34): 4.5150799560546876e-07, (58, 35): 5.245529785156251e-07, (58, 36): 4.3800000000000003e-07, (58, 37): 5.556019897460938e-07, (58, 38): 6.072050170898438e-07, (58, 39): 4.618009948730469e-07, (58, 40): 6.067520141601563e-07, (58, 41): 4.308510131835938e-07, (58, 42): 5.599080200195313e-07, (58, 43): 5.822050170898438e-07, (58, 44): 5.580560302734375e-07, (58, 45): 5.45406005859375e-07, (58, 46): 5.160579833984375e-07, (58, 47): 5.429019775390626e-07, (58, 48): 5.879080200195313e-07, (58, 49): 6.121510009765626e-07, (58, 50): 5.196019897460938e-07, (58, 51): 6.668579711914063e-07, (58, 52): 4.606589965820313e-07, (58, 53): 5.134089965820313e-07, (58, 54): 5.567570190429688e-07, (58, 55): 5.352999877929688e-07, (58, 56): 5.3910302734375e-07, (58, 57): 5.572009887695313e-07, (58, 58): 4.985039978027344e-07, (58, 59): 5.481580200195313e-07, (58, 60): 5.405009765625001e-07, (59, 1): 6.848499755859376e-07, (59, 2): 6.917009887695313e-07, (59, 3): 6.189089965820313e-07, (59, 4): 6.10906982421875e-07, (59, 5): 5.682529907226563e-07, (59, 6): 4.302529907226563e-07, (59, 7): 7.234089965820313e-07, (59, 8): 6.426019897460937e-07, (59, 9): 4.4065899658203127e-07, (59, 10): 4.4930801391601566e-07, (59, 11): 6.12906005859375e-07, (59, 12): 4.865530090332032e-07, (59, 13): 5.341589965820313e-07, (59, 14): 4.923089904785156e-07, (59, 15): 4.3100601196289067e-07, (59, 16): 6.217080078125e-07, (59, 17): 6.005499877929688e-07, (59, 18): 5.893079833984375e-07, (59, 19): 4.817579956054688e-07, (59, 20): 5.330590209960938e-07, (59, 21): 6.654539794921875e-07, (59, 22): 4.335509948730469e-07, (59, 23): 5.221019897460938e-07, (59, 24): 4.6695199584960943e-07, (59, 25): 5.806010131835938e-07, (59, 26): 6.0260400390625e-07, (59, 27): 5.660070190429688e-07, (59, 28): 6.07708984375e-07, (59, 29): 5.138549804687501e-07, (59, 30): 5.214509887695313e-07, (59, 31): 6.782059936523438e-07, (59, 32): 5.160029907226563e-07, (59, 33): 5.649089965820313e-07, (59, 34): 5.8335498046875e-07, (59, 35): 5.710560302734376e-07, (59, 36): 5.743519897460938e-07, (59, 37): 4.677019958496094e-07, (59, 38): 4.3790798950195315e-07, (59, 39): 4.6250601196289066e-07, (59, 40): 4.1875201416015626e-07, (59, 41): 4.5630300903320315e-07, (59, 42): 4.5210101318359376e-07, (59, 43): 5.428040161132813e-07, (59, 44): 4.279549865722657e-07, (59, 47): 4.611010131835938e-07, (59, 48): 4.950090026855469e-07, (59, 49): 5.141580200195313e-07, (59, 50): 5.296539916992188e-07, (59, 51): 4.477539978027344e-07, (59, 52): 5.659089965820313e-07, (59, 53): 4.592560119628907e-07, (59, 54): 4.773540039062501e-07, (59, 55): 4.157070007324219e-07, (59, 56): 4.350039978027344e-07, (59, 57): 5.493040161132813e-07, (59, 58): 5.329010009765625e-07, (59, 59): 5.872999877929688e-07, (59, 60): 6.045540161132813e-07, (60, 1): 8.034039916992188e-07, (60, 2): 6.075e-07, (60, 3): 6.924019775390626e-07, (60, 4): 4.857500000000001e-07, (60, 5): 6.45655029296875e-07, (60, 6): 6.730579833984375e-07, (60, 7): 6.977509765625e-07, (60, 8): 5.419550170898438e-07, (60, 9): 6.246530151367188e-07, (60, 10): 6.381519775390625e-07, (60, 11): 6.787069702148438e-07, (60, 12): 6.06052001953125e-07, (60, 13): 4.915580139160157e-07, (60, 14): 4.0560400390625e-07, (60, 15): 5.662540283203126e-07, (60, 16): 6.249509887695313e-07, (60, 17): 6.43052978515625e-07, (60, 18): 5.83052978515625e-07, (60, 19): 5.335029907226563e-07, (60, 20): 5.868560180664063e-07, (60, 21): 6.239000244140626e-07, (60, 22): 5.342050170898438e-07, (60, 23): 5.737030029296876e-07, (60, 24): 5.95552978515625e-07, (60, 25): 6.19552978515625e-07, (60, 26): 4.521080017089844e-07, (60, 27): 5.340540161132813e-07, (60, 28): 6.160590209960938e-07, (60, 29): 5.464500122070313e-07, (60, 30): 5.963590087890625e-07, (60, 31): 5.413560180664063e-07, (60, 32): 5.593519897460938e-07, (60, 33): 4.670060119628907e-07, (60, 34): 5.044500122070313e-07, (60, 35): 5.366580200195313e-07, (60, 36): 5.295549926757813e-07, (60, 37): 5.422540283203126e-07, (60, 38): 5.025050048828126e-07, (60, 39): 5.359569702148438e-07, (60, 40): 5.222030029296875e-07, (60, 41): 4.915549926757813e-07, (60, 42): 5.275050048828125e-07, (60, 43): 4.821029968261719e-07, (60, 44): 5.885560302734375e-07, (60, 45): 3.871499938964844e-07, (60, 46): 5.430560302734376e-07, (60, 47): 5.317059936523438e-07, (60, 48): 5.941530151367188e-07, (60, 49): 5.591510009765625e-07, (60, 50): 5.354030151367188e-07, (60, 51): 5.203579711914063e-07, (60, 52): 5.066059875488282e-07, (60, 53): 5.527520141601563e-07, (60, 54): 5.184089965820313e-07, (60, 55): 1.2000000476837158e-09, (60, 56): 4.794039916992188e-07, (60, 57): 4.980090026855469e-07, (60, 58): 4.750570068359375e-07, (60, 59): 5.434000244140626e-07, (60, 60): 4.813999938964844e-07, (61, 1): 7.157000122070313e-07, (61, 2): 7.142529907226562e-07, (61, 3): 5.856550292968751e-07, (61, 4): 5.796090087890625e-07, (61, 5): 6.371530151367188e-07, (61, 6): 6.030999755859375e-07, (61, 7): 6.090579833984375e-07, (61, 8): 7.496500244140625e-07, (61, 9): 6.112069702148438e-07, (61, 10): 7.376510009765626e-07, (61, 11): 5.330009765625e-07, (61, 12): 6.071010131835938e-07, (61, 13): 5.784569702148438e-07, (61, 14): 5.835079956054688e-07, (61, 15): 6.149019775390626e-07, (61, 16): 4.863510131835937e-07, (61, 17): 6.899050292968751e-07, (61, 18): 6.169000244140626e-07, (61, 19): 6.06e-07, (61, 20): 5.169580078125001e-07, (61, 21): 4.870580139160156e-07, (61, 22): 5.60551025390625e-07, (61, 23): 6.369000244140625e-07, (61, 24): 5.287000122070313e-07, (61, 25): 4.1845098876953126e-07, (61, 26): 5.365999755859376e-07, (61, 27): 5.75802978515625e-07, (61, 28): 5.81302978515625e-07, (61, 29): 5.430540161132813e-07, (61, 30): 4.814089965820313e-07, (61, 31): 5.332030029296875e-07, (61, 32): 4.4610000610351566e-07, (61, 33): 6.032589721679688e-07, (61, 34): 5.45458984375e-07, (61, 35): 5.351019897460938e-07, (61, 36): 5.537059936523438e-07, (61, 37): 4.835079956054688e-07, (61, 38): 4.7480700683593755e-07, (61, 39): 4.955090026855469e-07, (61, 40): 4.139580078125e-07, (61, 41): 5.854530029296875e-07, (61, 42): 6.187039794921876e-07, (61, 43): 5.495009765625e-07, (61, 44): 4.919039916992188e-07, (61, 45): 5.794509887695312e-07, (61, 46): 5.33552978515625e-07, (61, 47): 4.777000122070313e-07, (61, 48): 5.715560302734375e-07, (61, 49): 6.4510302734375e-07, (61, 50): 6.054000244140626e-07, (61, 51): 5.575070190429688e-07, (61, 52): 5.486519775390626e-07, (61, 53): 5.346530151367188e-07, (61, 54): 5.830029907226563e-07, (61, 55): 4.945559997558594e-07, (61, 56): 5.342030029296876e-07, (61, 57): 4.923550109863282e-07, (61, 58): 5.789539794921876e-07, (61, 59): 6.449509887695313e-07, (61, 60): 5.478049926757813e-07, (62, 1): 7.008049926757813e-07, (62, 2): 7.124580078125e-07, (62, 3): 6.452579956054688e-07, (62, 4): 6.544559936523438e-07, (62, 5): 7.319060058593751e-07, (62, 6): 6.031060180664063e-07, (62, 7): 6.364550170898438e-07, (62, 8): 6.426019897460937e-07, (62, 9): 6.696580200195313e-07, (62, 10): 6.201510009765625e-07, (62, 11): 5.239550170898438e-07, (62, 12): 5.499520263671876e-07, (62, 13): 6.451069946289063e-07, (62, 14): 6.017520141601562e-07, (62, 15): 6.606069946289063e-07, (62, 16): 6.641060180664063e-07, (62, 17): 5.035029907226563e-07, (62, 18): 6.4885498046875e-07, (62, 19): 5.432570190429688e-07, (62, 20): 5.80301025390625e-07, (62, 21): 5.394000244140625e-07, (62, 22): 5.289039916992188e-07, (62, 23): 6.491530151367188e-07, (62, 24): 5.234580078125e-07, (62, 25): 5.971069946289063e-07, (62, 26): 5.185570068359376e-07, (62, 27): 5.74406982421875e-07, (62, 28): 4.803510131835938e-07, (62, 29): 4.998529968261719e-07, (62, 30): 5.547589721679688e-07, (62, 31): 6.018090209960938e-07, (62, 32): 5.954539794921875e-07, (62, 33): 5.726539916992188e-07, (62, 34): 5.945079956054688e-07, (62, 35): 5.060039978027344e-07, (62, 36): 5.847020263671875e-07, (62, 37): 6.152009887695313e-07, (62, 38): 5.542579956054688e-07, (62, 39): 5.075570068359376e-07, (62, 40): 4.15406005859375e-07, (62, 41): 6.146010131835937e-07, (62, 42): 5.412550048828125e-07, (62, 43): 4.6900698852539063e-07, (62, 44): 5.958579711914062e-07, (62, 45): 5.487039794921875e-07, (62, 46): 5.321010131835938e-07, (62, 47): 5.207069702148438e-07, (62, 48): 5.252069702148438e-07, (62, 49): 5.300040283203125e-07, (62, 50): 6.267089843750001e-07, (62, 51): 4.5785501098632815e-07, (62, 52): 4.66e-07, (62, 53): 4.4735400390625003e-07, (62, 54): 4.934039916992188e-07, (62, 55): 5.317059936523438e-07, (62, 56): 5.039549865722657e-07, (62, 57): 4.7305801391601565e-07, (62, 58): 4.799030151367188e-07, (62, 59): 4.716499938964844e-07, (62, 60): 4.532590026855469e-07, (63, 1): 4.818049926757813e-07, (63, 2): 5.923010253906251e-07, (63, 3): 5.148090209960937e-07, (63, 4): 7.382589721679688e-07, (63, 5): 5.965549926757812e-07, (63, 6): 4.933550109863281e-07, (63, 7): 4.591510009765625e-07, (63, 8): 6.658049926757813e-07, (63, 9): 5.690590209960938e-07, (63, 10): 5.056510009765625e-07, (63, 11): 5.734500122070313e-07, (63, 12): 5.632080078125e-07, (63, 13): 5.081050109863282e-07, (63, 14): 5.642080078125e-07, (63, 15): 5.322030029296875e-07, (63, 16): 5.790079956054688e-07, (63, 17): 6.290520019531251e-07, (63, 18): 5.469089965820313e-07, (63, 19): 5.472589721679688e-07, (63, 20): 5.883060302734375e-07, (63, 21): 5.598499755859375e-07, (63, 22): 4.830000000000001e-07, (63, 23): 4.5800698852539065e-07, (63, 24): 6.778540039062501e-07, (63, 25): 5.998040161132813e-07, (63, 26): 5.830079956054687e-07, (63, 27): 6.707080078125001e-07, (63, 28): 4.927090148925782e-07, (63, 29): 6.006019897460938e-07, (63, 30): 6.010029907226563e-07, (63, 31): 5.613519897460938e-07, (63, 32): 4.79550994873047e-07, (63, 33): 5.56301025390625e-07, (63, 34): 4.975580139160157e-07, (63, 35): 5.2160400390625e-07, (63, 36): 5.880579833984375e-07, (63, 37): 6.23802001953125e-07, (63, 38): 5.3010400390625e-07, (63, 39): 5.687080078125e-07, (63, 40): 5.342520141601563e-07, (63, 41): 5.590009765625001e-07, (63, 42): 4.242579956054688e-07, (63, 43): 4.7620901489257814e-07, (63, 44): 6.096500244140626e-07, (63, 45): 4.998559875488282e-07, (63, 46): 5.707579956054688e-07, (63, 47): 5.5160498046875e-07, (63, 48): 4.7145001220703126e-07, (63, 49): 5.123510131835938e-07, (63, 50): 4.15406005859375e-07, (63, 51): 5.497579956054688e-07, (63, 52): 5.592039794921876e-07, (63, 53): 5.280029907226563e-07, (63, 54): 4.5250201416015626e-07, (63, 55): 6.564000244140626e-07, (63, 56): 5.471090087890625e-07, (63, 57): 4.4225100708007816e-07, (63, 58): 5.527570190429688e-07, (63, 59): 3.7775698852539066e-07, (63, 60): 5.884580078125e-07, (64, 1): 6.501539916992188e-07, (64, 2): 5.297020263671875e-07, (64, 3): 5.957540283203126e-07, (64, 4): 6.269500122070313e-07, (64, 5): 4.4215701293945313e-07, (64, 6): 5.426539916992188e-07, (64, 7): 6.930070190429688e-07, (64, 8): 6.339539794921876e-07, (64, 9): 5.770999755859375e-07, (64, 10): 6.822039794921876e-07, (64, 11): 4.906059875488281e-07, (64, 12): 5.507589721679688e-07, (64, 13): 6.057089843750001e-07, (64, 14): 6.660050048828126e-07, (64, 15): 6.006560058593751e-07, (64, 16): 6.312579956054688e-07, (64, 17): 5.889000244140625e-07, (64, 18): 6.078569946289063e-07, (64, 19): 6.287050170898438e-07, (64, 20): 6.218579711914063e-07, (64, 21): 5.915059814453125e-07, (64, 22): 6.04801025390625e-07, (64, 23): 4.910010070800782e-07, (64, 24): 5.297039794921876e-07, (64, 25): 5.306069946289063e-07, (64, 26): 5.273560180664063e-07, (64, 27): 5.067510070800782e-07, (64, 28): 6.309589843750001e-07, (64, 29): 6.090529785156251e-07, (64, 30): 5.540050048828125e-07, (64, 31): 6.445079956054688e-07, (64, 32): 5.156519775390625e-07, (64, 33): 6.307570190429688e-07, (64, 34): 6.117529907226563e-07, (64, 35): 5.442080078125e-07, (64, 36): 4.152019958496094e-07, (64, 37): 4.361069946289063e-07, (64, 38): 5.52708984375e-07, (64, 39): 5.552559814453125e-07, (64, 40): 4.469559936523438e-07, (64, 41): 5.319550170898438e-07, (64, 42): 5.227039794921876e-07, (64, 43): 5.665560302734375e-07, (64, 44): 5.272039794921875e-07, (64, 45): 7.288049926757813e-07, (64, 46): 5.990579833984376e-07, (64, 47): 4.532030029296875e-07, (64, 48): 4.868559875488282e-07, (64, 49): 6.314530029296876e-07, (64, 50): 5.909580078125e-07, (64, 51): 5.56302978515625e-07, (64, 52): 5.050069885253907e-07, (64, 53): 5.42406005859375e-07, (64, 54): 4.0945498657226566e-07, (64, 55): 4.787059936523438e-07, (64, 56): 5.702009887695313e-07, (64, 57): 5.154530029296875e-07, (64, 58): 6.788040161132813e-07, (64, 59): 4.971510009765625e-07, (64, 60): 4.771570129394531e-07, (65, 1): 5.439580078125001e-07, (65, 2): 6.050579833984375e-07, (65, 3): 7.421510009765626e-07, (65, 4): 6.211519775390625e-07, (65, 5): 7.022579956054688e-07, (65, 6): 6.551090087890626e-07, (65, 7): 5.27156005859375e-07, (65, 8): 6.039520263671875e-07, (65, 9): 6.221069946289063e-07, (65, 10): 5.638569946289063e-07, (65, 11): 6.363560180664063e-07, (65, 12): 6.611090087890625e-07, (65, 13): 6.283070068359375e-07, (65, 14): 5.865499877929688e-07, (65, 15): 6.292069702148438e-07, (65, 16): 5.941019897460938e-07, (65, 17): 6.0110400390625e-07, (65, 18): 6.19655029296875e-07, (65, 19): 5.128510131835938e-07, (65, 20): 6.546589965820312e-07, (65, 21): 5.243579711914063e-07, (65, 22): 4.171010131835938e-07, (65, 23): 6.495009765625e-07, (65, 24): 5.305540161132812e-07, (65, 25): 6.401560058593751e-07, (65, 26): 7.216530151367188e-07, (65, 27): 6.883060302734376e-07, (65, 28): 4.983030090332031e-07, (65, 29): 4.5995599365234377e-07, (65, 30): 5.959539794921876e-07, (65, 31): 4.954590148925782e-07, (65, 32): 5.052500000000001e-07, (65, 33): 5.083009948730469e-07, (65, 34): 4.688529968261719e-07, (65, 35): 6.245540161132813e-07, (65, 36): 5.271079711914063e-07, (65, 37): 6.04406005859375e-07, (65, 38): 4.1100601196289065e-07, (65, 39): 6.374000244140625e-07, (65, 40): 6.639539794921875e-07, (65, 41): 4.21656005859375e-07, (65, 42): 6.057009887695313e-07, (65, 43): 4.720509948730469e-07, (65, 44): 4.955010070800782e-07, (65, 45): 6.362570190429688e-07, (65, 46): 6.367509765625e-07, (65, 47): 3.89406005859375e-07, (65, 48): 5.693049926757813e-07, (65, 49): 5.097000122070313e-07, (65, 50): 5.881010131835938e-07, (65, 51): 6.236539916992187e-07, (65, 52): 4.2370800781250005e-07, (65, 53): 5.625059814453125e-07, (65, 54): 4.5120901489257817e-07, (65, 55): 5.237030029296875e-07, (65, 56): 6.090999755859375e-07, (65, 57): 6.078510131835938e-07, (65, 58): 4.74552001953125e-07, (65, 59): 4.8125e-07, (65, 60): 4.5840100097656255e-07, (66, 1): 7.018060302734375e-07, (66, 2): 6.066500244140626e-07, (66, 3): 5.528510131835938e-07, (66, 4): 6.05802001953125e-07, (66, 5): 6.074039916992188e-07, (66, 6): 5.158560180664062e-07, (66, 7): 6.031539916992188e-07, (66, 8): 7.323499755859376e-07, (66, 9): 6.125040283203126e-07, (66, 10): 6.494000244140626e-07, (66, 11): 5.667009887695313e-07, (66, 12): 6.843579711914063e-07, (66, 13): 6.902500000000001e-07, (66, 14): 6.4810498046875e-07, (66, 15): 6.401500244140625e-07, (66, 16): 4.5945498657226566e-07, (66, 17): 5.300070190429688e-07, (66, 18): 5.177999877929687e-07, (66, 19): 5.486539916992188e-07, (66, 20): 5.235570068359375e-07, (66, 21): 4.4045498657226566e-07, (66, 22): 5.259559936523438e-07, (66, 23): 5.48e-07, (66, 24): 5.157020263671875e-07, (66, 25): 4.5600299072265627e-07, (66, 26): 6.215570068359376e-07, (66, 27): 5.785540161132812e-07, (66, 28): 4.886000061035157e-07, (66, 29): 4.535090026855469e-07, (66, 30): 6.222000122070313e-07, (66, 31): 6.670520019531251e-07, (66, 32): 6.416569824218751e-07, (66, 35): 4.820050048828125e-07, (66, 36): 6.57552001953125e-07, (66, 37): 4.895509948730469e-07, (66, 38): 5.767540283203125e-07, (66, 39): 6.047529907226563e-07, (66, 40): 4.781560058593751e-07, (66, 41): 5.81406005859375e-07, (66, 42): 4.020039978027344e-07, (66, 43): 5.909520263671875e-07, (66, 44): 5.347080078125e-07, (66, 47): 5.466519775390625e-07, (66, 48): 4.912049865722657e-07, (66, 49): 5.296069946289062e-07, (66, 50): 5.8510400390625e-07, (66, 51): 4.343590087890625e-07, (66, 52): 5.004519958496095e-07, (66, 53): 6.163560180664063e-07, (66, 54): 6.080560302734375e-07, (66, 55): 4.6660299682617193e-07, (66, 56): 5.504080200195312e-07, (66, 57): 4.4940798950195316e-07, (66, 58): 6.112080078125e-07, (66, 59): 4.957529907226562e-07, (66, 60): 6.797059936523438e-07, (67, 1): 5.239039916992188e-07, (67, 2): 8.370029907226563e-07, (67, 3): 7.175050048828125e-07, (67, 4): 7.27155029296875e-07, (67, 5): 7.838510131835937e-07, (67, 6): 5.000010070800782e-07, (67, 7): 5.014049987792969e-07, (67, 8): 5.909060058593751e-07, (67, 9): 5.88655029296875e-07, (67, 10): 4.932019958496094e-07, (67, 11): 4.970010070800782e-07, (67, 12): 5.103059997558594e-07, (67, 13): 6.706060180664063e-07, (67, 14): 5.880499877929688e-07, (67, 15): 7.30405029296875e-07, (67, 16): 6.030070190429687e-07, (67, 17): 5.504500122070313e-07, (67, 18): 5.9210302734375e-07, (67, 19): 5.96552978515625e-07, (67, 20): 6.323079833984375e-07, (67, 21): 5.910059814453126e-07, (67, 22): 5.536069946289062e-07, (67, 23): 5.274550170898437e-07, (67, 24): 5.590059814453125e-07, (67, 25): 5.488510131835938e-07, (67, 26): 5.235e-07, (67, 27): 6.230570068359376e-07, (67, 28): 5.622589721679688e-07, (67, 29): 6.158029785156251e-07, (67, 30): 4.927070007324219e-07, (67, 31): 4.946029968261719e-07, (67, 32): 4.7270901489257815e-07, (67, 33): 5.221069946289063e-07, (67, 34): 4.4285400390625e-07, (67, 35): 5.315590209960938e-07, (67, 36): 5.936539916992188e-07, (67, 37): 5.007569885253907e-07, (67, 38): 4.311589965820313e-07, (67, 39): 4.897070007324219e-07, (67, 40): 5.481580200195313e-07, (67, 41): 5.262009887695313e-07, (67, 42): 5.676090087890626e-07, (67, 43): 4.788580017089844e-07, (67, 44): 6.08208984375e-07, (67, 45): 4.565559997558594e-07, (67, 46): 6.445579833984375e-07, (67, 47): 5.343519897460938e-07, (67, 48): 4.985010070800782e-07, (67, 49): 5.808070068359376e-07, (67, 50): 4.913030090332031e-07, (67, 51): 4.840549926757813e-07, (67, 52): 5.829530029296875e-07, (67, 53): 5.602589721679687e-07, (67, 54): 5.994569702148438e-07, (67, 55): 5.107550048828126e-07, (67, 56): 5.223549804687501e-07, (67, 57): 5.658090209960938e-07, (67, 58): 5.402059936523438e-07, (67, 59): 6.47208984375e-07, (67, 60): 6.464569702148438e-07, (68, 1): 6.198560180664063e-07, (68, 2): 7.377000122070312e-07, (68, 3): 6.807000122070313e-07, (68, 4): 7.600089721679688e-07, (68, 5): 5.961060180664062e-07, (68, 6): 6.952009887695312e-07, (68, 7): 6.277509765625001e-07, (68, 8): 6.861040039062501e-07, (68, 9): 7.44051025390625e-07, (68, 10): 5.681589965820313e-07, (68, 11): 6.268549804687501e-07, (68, 12): 5.477529907226563e-07, (68, 13): 6.825570068359376e-07, (68, 14): 6.179500122070313e-07, (68, 15): 5.672050170898438e-07, (68, 16): 6.108560180664063e-07, (68, 17): 6.364050292968751e-07, (68, 18): 6.217529907226563e-07, (68, 19): 5.8825e-07, (68, 20): 6.822030029296876e-07, (68, 21): 6.641090087890625e-07, (68, 22): 6.046500244140625e-07, (68, 23): 5.791019897460938e-07, (68, 24): 5.718519897460938e-07, (68, 25): 6.946589965820313e-07, (68, 26): 6.157059936523438e-07, (68, 27): 5.992000122070313e-07, (68, 28): 4.928529968261719e-07, (68, 29): 6.179500122070313e-07, (68, 30): 6.411060180664063e-07, (68, 31): 5.846060180664063e-07, (68, 32): 6.142039794921876e-07, (68, 33): 5.644530029296875e-07, (68, 34): 6.06906005859375e-07, (68, 35): 5.475089721679687e-07, (68, 36): 5.590070190429688e-07, (68, 37): 6.010089721679688e-07, (68, 38): 4.991549987792969e-07, (68, 39): 5.913510131835938e-07, (68, 40): 5.772589721679687e-07, (68, 41): 5.617089843750001e-07, (68, 42): 1.2000000476837158e-09, (68, 43): 6.702059936523438e-07, (68, 44): 6.090050048828125e-07, (68, 45): 5.35155029296875e-07, (68, 46): 5.599530029296875e-07, (68, 47): 5.51156005859375e-07, (68, 48): 5.371079711914063e-07, (68, 49): 5.605089721679688e-07, (68, 50): 5.931530151367188e-07, (68, 51): 5.568070068359376e-07, (68, 52): 5.842500000000001e-07, (68, 53): 4.5325e-07, (68, 54): 5.6985302734375e-07, (68, 55): 5.662570190429687e-07, (68, 56): 5.03e-07, (68, 57): 4.352529907226563e-07, (68, 58): 4.956520080566406e-07, (68, 59): 5.320070190429688e-07, (68, 60): 4.571549987792969e-07, (69, 1): 5.829089965820313e-07, (69, 2): 7.078010253906251e-07, (69, 3): 6.820540161132813e-07, (69, 4): 5.9035498046875e-07, (69, 5): 6.696010131835938e-07, (69, 6): 5.645050048828126e-07, (69, 7): 5.843560180664063e-07, (69, 8): 6.446500244140626e-07, (69, 9): 5.786510009765626e-07, (69, 10): 5.755089721679688e-07, (69, 11): 6.25551025390625e-07, (69, 12): 6.450999755859376e-07, (69, 13): 4.607030029296875e-07, (69, 14): 5.765070190429688e-07, (69, 15): 4.999089965820313e-07, (69, 16): 7.032030029296876e-07, (69, 17): 6.663540039062501e-07, (69, 18): 5.27458984375e-07, (69, 19): 6.042009887695313e-07, (69, 20): 5.147050170898437e-07, (69, 21): 4.947030029296876e-07, (69, 22): 5.795520019531251e-07, (69, 25): 5.0725e-07, (69, 26): 5.530590209960937e-07, (69, 27): 5.964030151367188e-07, (69, 28): 5.625e-07, (69, 29): 6.398569946289063e-07, (69, 30): 5.297529907226563e-07, (69, 31): 4.840010070800782e-07, (69, 32): 5.370549926757813e-07, (69, 33): 5.580590209960938e-07, (69, 34): 4.805509948730469e-07, (69, 35): 5.045539855957032e-07, (69, 36): 5.479559936523438e-07, (69, 37): 5.112500000000001e-07, (69, 38): 5.576069946289063e-07, (69, 39): 4.98302001953125e-07, (69, 40): 6.438049926757813e-07, (69, 41): 6.526019897460937e-07, (69, 42): 6.622520141601562e-07, (69, 43): 5.465560302734375e-07, (69, 45): 6.170549926757813e-07, (69, 46): 5.26156982421875e-07, (69, 49): 5.925079956054688e-07, (69, 50): 5.699530029296875e-07, (69, 51): 5.567050170898438e-07, (69, 52): 5.61406982421875e-07, (69, 53): 5.944580078125001e-07, (69, 54): 5.049500122070312e-07, (69, 55): 4.3895901489257815e-07, (69, 56): 5.117080078125e-07, (69, 57): 5.474080200195313e-07, (69, 58): 6.168040161132813e-07, (69, 59): 4.810079956054688e-07, (69, 60): 4.6155200195312505e-07, (70, 1): 7.724080200195313e-07, (70, 2): 8.432570190429688e-07, (70, 3): 6.087589721679688e-07, (70, 4): 7.272069702148437e-07, (70, 5): 6.280560302734375e-07, (70, 6): 6.212500000000001e-07, (70, 7): 6.912509765625001e-07, (70, 8): 7.270579833984376e-07, (70, 9): 6.622570190429688e-07, (70, 10): 6.188510131835937e-07, (70, 11): 6.08405029296875e-07, (70, 12): 5.640999755859375e-07, (70, 13): 6.524530029296876e-07, (70, 14): 6.457579956054688e-07, (70, 15): 5.715009765625001e-07, (70, 16): 6.55458984375e-07, (70, 17): 6.403040161132813e-07, (70, 18): 5.68e-07, (70, 19): 5.425499877929688e-07, (70, 20): 6.31302001953125e-07, (70, 21): 6.148090209960938e-07, (70, 22): 6.071580200195313e-07, (70, 23): 6.06656982421875e-07, (70, 24): 5.748510131835938e-07, (70, 25): 6.931040039062501e-07, (70, 26): 5.158029785156251e-07, (70, 27): 7.031040039062501e-07, (70, 28): 5.870540161132812e-07, (70, 29): 5.756589965820312e-07, (70, 30): 5.400499877929688e-07, (70, 31): 4.777019958496094e-07, (70, 32): 5.643079833984375e-07, (70, 33): 5.606040039062501e-07, (70, 34): 5.420560302734375e-07, (70, 35): 5.251530151367187e-07, (70, 36): 5.907550048828125e-07, (70, 37): 6.9325e-07, (70, 38): 5.736060180664062e-07, (70, 39): 5.132030029296875e-07, (70, 40): 5.402520141601563e-07, (70, 41): 6.241589965820313e-07, (70, 42): 5.654530029296875e-07, (70, 43): 5.527559814453126e-07, (70, 44): 5.216500244140625e-07, (70, 45): 4.821510009765625e-07, (70, 46): 5.23801025390625e-07, (70, 47): 4.4760598754882814e-07, (70, 48): 5.4210302734375e-07, (70, 49): 6.152000122070313e-07, (70, 50): 5.706069946289062e-07, (70, 51): 6.020549926757813e-07, (70, 52): 4.947520141601563e-07, (70, 53): 5.786049804687501e-07, (70, 54): 5.50656982421875e-07, (70, 55): 5.317550048828125e-07, (70, 56): 5.782540283203125e-07, (70, 57): 5.984530029296875e-07, (70, 58): 6.36906982421875e-07, (70, 59): 4.923089904785156e-07, (70, 60): 5.713020019531251e-07, (71, 1): 4.4670800781250003e-07, (71, 2): 5.635020141601563e-07, (71, 3): 7.499089965820313e-07, (71, 4): 5.577559814453125e-07, (71, 5): 5.90406982421875e-07, (71, 6): 5.776040039062501e-07, (71, 7): 6.873049926757813e-07, (71, 8): 7.130529785156251e-07, (71, 9): 5.6410302734375e-07, (71, 10): 5.985000000000001e-07, (71, 11): 6.819580078125001e-07, (71, 12): 4.3670498657226564e-07, (71, 13): 5.881569824218751e-07, (71, 14): 5.128499755859375e-07, (71, 15): 5.773049926757813e-07, (71, 16): 6.01655029296875e-07, (71, 17): 5.139559936523438e-07, (71, 18): 5.857030029296875e-07, (71, 19): 4.877000122070313e-07, (71, 20): 6.307080078125e-07, (71, 21): 5.446060180664063e-07, (71, 22): 5.057539978027344e-07, (71, 23): 4.847049865722657e-07, (71, 24): 6.164060058593751e-07, (71, 25): 4.804049987792969e-07, (71, 26): 4.782520141601563e-07, (71, 27): 5.947039794921876e-07, (71, 28): 4.904010009765625e-07, (71, 29): 4.3240798950195316e-07, (71, 30): 5.260560302734376e-07, (71, 31): 5.546519775390625e-07, (71, 32): 6.213040161132813e-07, (71, 33): 6.424030151367188e-07, (71, 34): 5.040570068359375e-07, (71, 35): 5.6375e-07, (71, 36): 4.682539978027344e-07, (71, 37): 6.004069824218751e-07, (71, 38): 5.070570068359375e-07, (71, 40): 5.687589721679687e-07, (71, 41): 4.7555899047851564e-07, (71, 42): 6.005029907226563e-07, (71, 43): 5.330499877929688e-07, (71, 44): 5.593090209960938e-07, (71, 45): 5.970000000000001e-07, (71, 46): 5.947039794921876e-07, (71, 47): 5.035520019531251e-07, (71, 48): 4.4770401000976566e-07, (71, 49): 5.773519897460938e-07, (71, 50): 4.373999938964844e-07, (71, 51): 4.896499938964844e-07, (71, 52): 5.210059814453125e-07, (71, 53): 5.640590209960938e-07, (71, 54): 5.021499938964844e-07, (71, 55): 4.869089965820312e-07, (71, 56): 4.772059936523438e-07, (71, 57): 3.974530029296875e-07, (71, 58): 5.482009887695313e-07, (71, 59): 6.463060302734375e-07, (71, 60): 5.37302978515625e-07, (72, 1): 6.045499877929688e-07, (72, 2): 6.41406005859375e-07, (72, 3): 4.721510009765625e-07, (72, 4): 6.211040039062501e-07, (72, 5): 7.070029907226563e-07, (72, 6): 7.779000244140625e-07, (72, 7): 7.1235400390625e-07, (72, 8): 6.307030029296875e-07, (72, 9): 6.600059814453126e-07, (72, 10): 6.380079956054687e-07, (72, 11): 5.538079833984376e-07, (72, 12): 6.912009887695313e-07, (72, 13): 6.421019897460938e-07, (72, 14): 6.416010131835938e-07, (72, 15): 5.942080078125e-07, (72, 16): 6.550029907226562e-07, (72, 17): 5.455549926757813e-07, (72, 18): 6.064039916992188e-07, (72, 19): 6.532570190429688e-07, (72, 20): 5.778510131835938e-07, (72, 21): 6.098549804687501e-07, (72, 22): 6.532030029296875e-07, (72, 23): 6.354010009765625e-07, (72, 24): 6.381580200195313e-07, (72, 25): 6.253579711914062e-07, (72, 26): 4.873049926757813e-07, (72, 27): 5.763499755859375e-07, (72, 28): 7.145089721679688e-07, (72, 29): 3.8125698852539065e-07, (72, 30): 6.640499877929688e-07, (72, 31): 5.595029907226563e-07, (72, 32): 5.662059936523438e-07, (72, 33): 5.310590209960938e-07, (72, 34): 4.1640798950195317e-07, (72, 35): 5.234050292968751e-07, (72, 36): 4.2510501098632813e-07, (72, 37): 3.9580801391601567e-07, (72, 38): 5.470009765625e-07, (72, 39): 5.117560119628907e-07, (72, 40): 5.569039916992188e-07, (72, 41): 4.1995098876953127e-07, (72, 42): 5.252059936523438e-07, (72, 43): 5.760059814453125e-07, (72, 44): 4.3185501098632816e-07, (72, 45): 6.111010131835938e-07, (72, 46): 5.749509887695313e-07, (72, 47): 6.527529907226563e-07, (72, 48): 5.717069702148438e-07, (72, 49): 6.343079833984376e-07, (72, 50): 5.952559814453126e-07, (72, 51): 5.815590209960938e-07, (72, 52): 5.373510131835938e-07, (72, 53): 4.876050109863281e-07, (72, 54): 4.494570007324219e-07, (72, 55): 5.957050170898438e-07, (72, 56): 6.587579956054688e-07, (72, 57): 4.226069946289063e-07, (72, 58): 4.542070007324219e-07, (72, 59): 5.482559814453125e-07, (72, 60): 6.119060058593751e-07, (73, 1): 6.800570068359375e-07, (73, 2): 6.76708984375e-07, (73, 3): 7.722039794921876e-07, (73, 4): 7.777059936523438e-07, (73, 5): 6.287000122070313e-07, (73, 6): 6.354030151367188e-07, (73, 7): 5.741019897460938e-07, (73, 8): 4.8060400390625e-07, (73, 9): 5.868040161132813e-07, (73, 10): 6.298040161132813e-07, (73, 11): 5.674089965820313e-07, (73, 12): 6.696560058593751e-07, (73, 13): 7.573079833984375e-07, (73, 14): 6.381079711914062e-07, (73, 15): 6.310499877929688e-07, (73, 16): 4.781589965820313e-07, (73, 17): 6.08551025390625e-07, (73, 18): 5.094509887695313e-07, (73, 19): 5.383029785156251e-07, (73, 20): 6.553070068359376e-07, (73, 21): 6.508079833984376e-07, (73, 22): 6.389539794921875e-07, (73, 23): 6.145e-07, (73, 24): 6.431589965820313e-07, (73, 25): 5.999509887695313e-07, (73, 26): 7.127030029296875e-07, (73, 27): 4.730509948730469e-07, (73, 28): 5.768020019531251e-07, (73, 29): 6.215540161132813e-07, (73, 30): 5.189010009765625e-07, (73, 31): 5.082510070800782e-07, (73, 32): 5.57302978515625e-07, (73, 33): 4.752000122070313e-07, (73, 34): 4.992090148925781e-07, (73, 35): 5.209000244140626e-07, (73, 36): 5.398519897460937e-07, (73, 37): 4.841000061035157e-07, (73, 38): 4.5270498657226563e-07, (73, 39): 6.343569946289063e-07, (73, 40): 3.959570007324219e-07, (73, 41): 5.164539794921875e-07, (73, 42): 5.526519775390626e-07, (73, 43): 5.757000122070313e-07, (73, 44): 5.803530273437501e-07, (73, 45): 6.1885400390625e-07, (73, 46): 5.960070190429688e-07, (73, 47): 5.159520263671876e-07, (73, 48): 5.721500244140625e-07, (73, 49): 5.240020141601563e-07, (73, 50): 5.080020141601563e-07, (73, 51): 5.077049865722656e-07, (73, 52): 4.077080078125e-07, (73, 53): 4.1685598754882816e-07, (73, 54): 5.85051025390625e-07, (73, 55): 6.032550048828125e-07, (73, 56): 5.470079956054688e-07, (73, 57): 5.391500244140626e-07, (73, 58): 4.841069946289063e-07, (73, 59): 5.392570190429688e-07, (73, 60): 5.0910400390625e-07, (74, 1): 6.838040161132813e-07, (74, 2): 6.726530151367188e-07, (74, 3): 6.422579956054687e-07, (74, 4): 7.047579956054688e-07, (74, 5): 5.6985400390625e-07, (74, 6): 5.107539978027344e-07, (74, 7): 6.139000244140626e-07, (74, 8): 5.486530151367188e-07, (74, 10): 6.544039916992188e-07, (74, 11): 5.600050048828126e-07, (74, 12): 5.091090087890625e-07, (74, 13): 4.907040100097656e-07, (74, 14): 6.323499755859376e-07, (74, 15): 5.189509887695312e-07, (74, 16): 4.799039916992187e-07, (74, 19): 6.018510131835938e-07, (74, 20): 6.148049926757813e-07, (74, 21): 5.778510131835938e-07, (74, 22): 4.902569885253906e-07, (74, 23): 5.883560180664063e-07, (74, 24): 5.940070190429688e-07, (74, 25): 5.231519775390626e-07, (74, 26): 4.4580899047851563e-07, (74, 27): 5.638560180664062e-07, (74, 28): 5.599000244140625e-07, (74, 29): 4.906000061035156e-07, (74, 30): 5.969500122070313e-07, (74, 31): 4.3350601196289065e-07, (74, 32): 4.1545300292968755e-07, (74, 33): 5.057520141601562e-07, (74, 34): 6.012540283203126e-07, (74, 35): 4.769089965820312e-07, (74, 36): 4.5475601196289066e-07, (74, 37): 5.992529907226563e-07, (74, 38): 5.474000244140626e-07, (74, 39): 6.012550048828126e-07, (74, 40): 4.928009948730469e-07, (74, 41): 6.582000122070313e-07, (74, 42): 4.990549926757813e-07, (74, 43): 6.05905029296875e-07, (74, 44): 5.253040161132813e-07, (74, 45): 5.273040161132813e-07, (74, 46): 5.986019897460938e-07, (74, 47): 5.392999877929688e-07, (74, 48): 4.4420700073242193e-07, (74, 49): 5.685089721679688e-07, (74, 50): 5.355499877929688e-07, (74, 51): 5.125089721679688e-07, (74, 52): 5.984019775390625e-07, (74, 53): 5.1510302734375e-07, (74, 54): 4.0420498657226564e-07, (74, 55): 5.494509887695313e-07, (74, 56): 4.234049987792969e-07, (74, 57): 6.348049926757813e-07, (74, 58): 5.877570190429688e-07, (74, 59): 5.639010009765625e-07, (74, 60): 4.980499877929687e-07, (75, 1): 5.317009887695312e-07, (75, 2): 5.846580200195313e-07, (75, 3): 6.208579711914063e-07, (75, 4): 6.657059936523438e-07, (75, 5): 6.978569946289063e-07, (75, 6): 5.594530029296876e-07, (75, 7): 5.7460302734375e-07, (75, 8): 6.752589721679688e-07, (75, 9): 4.362590026855469e-07, (75, 10): 5.831019897460938e-07, (75, 11): 6.706060180664063e-07, (75, 12): 5.935020141601563e-07, (75, 13): 6.150579833984375e-07, (75, 14): 5.795529785156251e-07, (75, 15): 5.11156005859375e-07, (75, 16): 5.233090209960937e-07, (75, 17): 6.892540283203125e-07, (75, 18): 5.654520263671876e-07, (75, 19): 6.471500244140625e-07, (75, 20): 6.0385302734375e-07, (75, 21): 5.018519897460938e-07, (75, 22): 5.239010009765625e-07, (75, 23): 5.719039916992188e-07, (75, 24): 6.28656005859375e-07, (75, 25): 6.238040161132813e-07, (75, 26): 5.242059936523438e-07, (75, 27): 7.130529785156251e-07, (75, 28): 5.556079711914063e-07, (75, 29): 5.146580200195313e-07, (75, 30): 5.490029907226563e-07, (75, 31): 5.969550170898438e-07, (75, 32): 6.188029785156251e-07, (75, 33): 6.479500122070313e-07, (75, 34): 5.100509948730469e-07, (75, 35): 5.556530151367188e-07, (75, 36): 5.432039794921875e-07, (75, 37): 5.949559936523437e-07, (75, 38): 6.467589721679688e-07, (75, 39): 5.802579956054687e-07, (75, 40): 4.3970800781250003e-07, (75, 41): 4.4185400390625004e-07, (75, 42): 5.295089721679688e-07, (75, 43): 6.389569702148438e-07, (75, 44): 5.863579711914063e-07, (75, 45): 5.457020263671876e-07, (75, 46): 5.626560058593751e-07, (75, 47): 5.996069946289063e-07, (75, 48): 6.162000122070313e-07, (75, 49): 4.862040100097657e-07, (75, 50): 5.120089721679688e-07, (75, 51): 5.899050292968751e-07, (75, 52): 5.16802978515625e-07, (75, 53): 4.851549987792969e-07, (75, 54): 5.295579833984375e-07, (75, 55): 4.861059875488281e-07, (75, 56): 3.8305801391601566e-07, (75, 57): 5.099590148925782e-07, (75, 58): 4.784590148925782e-07, (75, 59): 5.020539855957031e-07, (75, 60): 5.380540161132813e-07, (76, 1): 6.665570068359376e-07, (76, 2): 6.541010131835937e-07, (76, 3): 6.484509887695313e-07, (76, 4): 6.53302001953125e-07, (76, 5): 6.0310498046875e-07, (76, 6): 6.491539916992187e-07, (76, 7): 5.039530029296875e-07, (76, 8): 5.361539916992188e-07, (76, 9): 6.108519897460938e-07, (76, 10): 5.78406982421875e-07, (76, 11): 6.104039916992188e-07, (76, 12): 5.971060180664063e-07, (76, 13): 6.569069824218751e-07, (76, 14): 6.359010009765625e-07, (76, 15): 5.87052001953125e-07, (76, 16): 5.90656005859375e-07, (76, 17): 6.378579711914063e-07, (76, 18): 5.033999938964844e-07, (76, 19): 5.670020141601563e-07, (76, 20): 5.450570068359375e-07, (76, 21): 4.854530029296875e-07, (76, 22): 5.087539978027344e-07, (76, 23): 5.781019897460938e-07, (76, 24): 5.556539916992188e-07, (76, 25): 5.504500122070313e-07, (76, 26): 6.148029785156251e-07, (76, 27): 5.293049926757813e-07, (76, 28): 5.702570190429688e-07, (76, 29): 5.692030029296876e-07, (76, 30): 6.272999877929688e-07, (76, 31): 5.168049926757813e-07, (76, 32): 5.362529907226563e-07, (76, 33): 5.019590148925781e-07, (76, 34): 5.19905029296875e-07, (76, 35): 4.975020141601562e-07, (76, 36): 4.947590026855469e-07, (76, 37): 5.378049926757813e-07, (76, 38): 5.401090087890625e-07, (76, 39): 5.449509887695313e-07, (76, 40): 5.668499755859375e-07, (76, 41): 4.6835000610351564e-07, (76, 42): 4.96156005859375e-07, (76, 43): 5.223079833984375e-07, (76, 44): 6.050549926757812e-07, (76, 45): 6.13208984375e-07, (76, 46): 5.392570190429688e-07, (76, 47): 5.535560302734375e-07, (76, 48): 4.808009948730469e-07, (76, 49): 5.670579833984375e-07, (76, 50): 5.85801025390625e-07, (76, 51): 5.754019775390626e-07, (76, 52): 5.612509765625e-07, (76, 53): 5.244580078125e-07, (76, 54): 5.312570190429688e-07, (76, 55): 5.19906982421875e-07, (76, 56): 5.261019897460938e-07, (76, 57): 4.662070007324219e-07, (76, 58): 5.873079833984375e-07, (76, 59): 5.356060180664062e-07, (76, 60): 4.2010000610351566e-07, (77, 1): 7.489530029296875e-07, (77, 2): 6.335070190429688e-07, (77, 3): 6.437570190429687e-07, (77, 4): 6.282030029296875e-07, (77, 5): 5.481539916992188e-07, (77, 6): 7.011539916992188e-07, (77, 7): 6.252030029296875e-07, (77, 8): 5.666069946289063e-07, (77, 9): 5.392009887695313e-07, (77, 10): 5.7975e-07, (77, 11): 6.364580078125e-07, (77, 12): 6.22302001953125e-07, (77, 13): 5.974550170898438e-07, (77, 14): 6.152080078125e-07, (77, 15): 5.478079833984375e-07, (77, 16): 6.747559814453125e-07, (77, 17): 5.946539916992188e-07, (77, 18): 5.443029785156251e-07, (77, 19): 6.2860400390625e-07, (77, 20): 6.8160302734375e-07, (77, 21): 4.975010070800781e-07, (77, 22): 5.439559936523438e-07, (77, 23): 7.098519897460938e-07, (77, 24): 5.841090087890626e-07, (77, 25): 6.181539916992187e-07, (77, 26): 6.202550048828125e-07, (77, 27): 6.250009765625001e-07, (77, 28): 5.534080200195313e-07, (77, 29): 5.646049804687501e-07, (77, 30): 4.6300299072265627e-07, (77, 31): 5.582999877929688e-07, (77, 32): 5.585590209960937e-07, (77, 33): 5.701530151367188e-07, (77, 34): 6.158060302734375e-07, (77, 35): 5.894019775390626e-07, (77, 36): 5.952000122070312e-07, (77, 37): 5.790560302734375e-07, (77, 38): 4.6560101318359376e-07, (77, 39): 5.762579956054688e-07, (77, 40): 5.380499877929688e-07, (77, 41): 5.23302978515625e-07, (77, 42): 5.717009887695313e-07, (77, 43): 5.846500244140625e-07, (77, 44): 5.944000244140626e-07, (77, 45): 6.738560180664063e-07, (77, 46): 5.318079833984375e-07, (77, 47): 4.7650201416015626e-07, (77, 48): 4.868580017089844e-07, (77, 49): 5.822059936523437e-07, (77, 50): 5.032510070800781e-07, (77, 51): 5.618560180664063e-07, (77, 52): 6.038569946289063e-07, (77, 53): 5.128499755859375e-07, (77, 54): 5.618569946289063e-07, (77, 55): 6.72958984375e-07, (77, 56): 6.156069946289063e-07, (77, 57): 3.6695401000976563e-07, (77, 58): 5.978560180664063e-07, (77, 59): 5.076560058593751e-07, (77, 60): 4.590090026855469e-07, (78, 1): 7.187999877929688e-07, (78, 2): 7.258079833984376e-07, (78, 3): 6.9560302734375e-07, (78, 4): 6.64801025390625e-07, (78, 5): 6.037540283203125e-07, (78, 6): 7.389569702148438e-07, (78, 7): 4.6020498657226566e-07, (78, 8): 5.810590209960937e-07, (78, 9): 4.180509948730469e-07, (78, 10): 6.147039794921875e-07, (78, 11): 6.487540283203125e-07, (78, 12): 4.5035699462890626e-07, (78, 13): 5.218049926757812e-07, (78, 14): 6.156589965820313e-07, (78, 15): 5.002590026855469e-07, (78, 16): 4.967999877929687e-07, (78, 17): 6.028070068359375e-07, (78, 18): 4.7335900878906254e-07, (78, 19): 6.27156982421875e-07, (78, 20): 3.9960400390625005e-07, (78, 21): 4.4085000610351563e-07, (78, 22): 4.4945498657226565e-07, (78, 23): 6.166550292968751e-07, (78, 24): 6.65406005859375e-07, (78, 25): 5.992999877929688e-07, (78, 26): 6.407000122070313e-07, (78, 27): 5.8360302734375e-07, (78, 28): 5.184030151367188e-07, (78, 29): 5.699580078125e-07, (78, 30): 4.054500122070313e-07, (78, 31): 6.23906005859375e-07, (78, 32): 6.108579711914063e-07, (78, 33): 5.112059936523438e-07, (78, 34): 3.5835900878906253e-07, (78, 35): 5.599550170898437e-07, (78, 36): 6.866090087890625e-07, (78, 37): 5.6660498046875e-07, (78, 38): 5.531550292968751e-07, (78, 39): 5.995029907226563e-07, (78, 40): 4.814500122070313e-07, (78, 41): 4.1595001220703127e-07, (78, 42): 4.244549865722657e-07, (78, 43): 6.322999877929688e-07, (78, 44): 5.089530029296875e-07, (78, 45): 5.9660302734375e-07, (78, 46): 5.575540161132813e-07, (78, 47): 4.3855899047851567e-07, (78, 48): 4.648089904785157e-07, (78, 49): 4.789570007324219e-07, (78, 50): 5.660570068359375e-07, (78, 51): 4.2365100097656254e-07, (78, 52): 6.189530029296876e-07, (78, 53): 5.7225e-07, (78, 54): 5.342020263671876e-07, (78, 55): 4.774039916992188e-07, (78, 56): 4.7330200195312503e-07, (78, 57): 4.3095300292968755e-07, (78, 58): 4.803039855957032e-07, (78, 59): 5.21551025390625e-07, (78, 60): 4.971019897460938e-07, (79, 1): 6.646530151367188e-07, (79, 2): 6.490029907226563e-07, (79, 3): 7.11656005859375e-07, (79, 4): 6.933590087890625e-07, (79, 5): 7.1385400390625e-07, (79, 6): 6.253519897460938e-07, (79, 7): 6.808590087890625e-07, (79, 8): 6.304039916992188e-07, (79, 9): 6.992039794921875e-07, (79, 10): 5.057569885253906e-07, (79, 11): 6.34052978515625e-07, (79, 12): 6.37156005859375e-07, (79, 13): 6.412050170898438e-07, (79, 14): 6.266589965820313e-07, (79, 15): 6.670999755859375e-07, (79, 16): 5.286530151367188e-07, (79, 17): 4.850570068359376e-07, (79, 18): 5.964069824218751e-07, (79, 19): 4.3870401000976567e-07, (79, 20): 5.342509765625e-07, (79, 21): 6.309039916992188e-07, (79, 22): 6.729569702148438e-07, (79, 23): 6.579080200195313e-07, (79, 24): 6.228579711914063e-07, (79, 25): 6.37052001953125e-07, (79, 26): 6.021510009765626e-07, (79, 27): 7.357999877929688e-07, (79, 28): 6.284589843750001e-07, (79, 29): 7.492069702148438e-07, (79, 30): 8.678040161132813e-07, (79, 31): 6.8235302734375e-07, (79, 32): 7.125540161132813e-07, (79, 33): 7.301539916992188e-07, (79, 34): 9.249080200195313e-07, (79, 35): 8.6735302734375e-07, (79, 36): 8.257069702148438e-07, (79, 37): 8.813519897460938e-07, (79, 38): 9.744500122070312e-07, (79, 39): 8.858519897460938e-07, (79, 40): 7.201539916992188e-07, (79, 41): 7.120549926757813e-07, (79, 42): 8.778070068359375e-07, (79, 43): 4.88802001953125e-07, (79, 44): 8.986530151367188e-07, (79, 45): 7.428499755859375e-07, (79, 46): 5.587559814453126e-07, (79, 47): 6.599500122070313e-07, (79, 48): 6.48052978515625e-07, (79, 49): 5.959500122070313e-07, (79, 50): 6.089089965820313e-07, (79, 51): 5.992080078125e-07, (79, 52): 6.673510131835938e-07, (79, 53): 8.202009887695313e-07, (79, 54): 7.59052001953125e-07, (79, 57): 6.899000244140626e-07, (79, 58): 7.151519775390626e-07, (79, 59): 5.6135400390625e-07, (79, 60): 7.09552978515625e-07, (80, 1): 6.230529785156251e-07, (80, 2): 6.201079711914063e-07, (80, 3): 5.465540161132813e-07, (80, 4): 7.110579833984375e-07, (80, 5): 6.329039916992188e-07, (80, 6): 6.563499755859376e-07, (80, 7): 6.568029785156251e-07, (80, 8): 5.646589965820313e-07, (80, 9): 5.877020263671876e-07, (80, 10): 5.248079833984375e-07, (80, 11): 5.366049804687501e-07, (80, 12): 6.667540283203125e-07, (80, 13): 7.001530151367188e-07, (80, 14): 5.272009887695313e-07, (80, 15): 4.4665200805664064e-07, (80, 16): 5.753079833984375e-07, (80, 17): 6.46802001953125e-07, (80, 18): 5.090010070800781e-07, (80, 19): 5.544060058593751e-07, (80, 20): 5.383040161132813e-07, (80, 21): 5.483079833984376e-07, (80, 22): 4.919070129394532e-07, (80, 23): 4.637070007324219e-07, (80, 24): 5.459010009765626e-07, (80, 25): 5.802579956054687e-07, (80, 26): 6.093569946289063e-07, (80, 27): 5.040020141601563e-07, (80, 28): 6.072540283203125e-07, (80, 29): 4.73906005859375e-07, (80, 30): 8.992069702148439e-07, (80, 31): 8.803090209960938e-07, (80, 32): 7.906500244140625e-07, (80, 33): 8.049500122070313e-07, (80, 34): 7.64552978515625e-07, (80, 35): 9.037039794921875e-07, (80, 36): 7.856560058593751e-07, (80, 37): 7.613029785156251e-07, (80, 38): 8.045540161132813e-07, (80, 39): 7.814080200195313e-07, (80, 40): 7.945050048828126e-07, (80, 41): 8.067000122070314e-07, (80, 42): 8.558079833984376e-07, (80, 43): 7.64552001953125e-07, (80, 44): 5.501069946289063e-07, (80, 45): 4.318009948730469e-07, (80, 46): 4.889030151367188e-07, (80, 47): 5.832570190429687e-07, (80, 48): 6.375560302734376e-07, (80, 49): 5.770560302734375e-07, (80, 50): 4.903519897460937e-07, (80, 51): 6.041060180664063e-07, (80, 52): 7.784089965820313e-07, (80, 53): 5.718530273437501e-07, (80, 54): 4.7470901489257814e-07, (80, 55): 4.7285598754882813e-07, (80, 56): 5.403519897460938e-07, (80, 57): 6.047059936523437e-07, (80, 58): 6.560510253906251e-07, (80, 59): 8.241580200195313e-07, (80, 60): 7.223549804687501e-07, (81, 1): 7.608540039062501e-07, (81, 2): 8.218560180664063e-07, (81, 3): 8.647509765625001e-07, (81, 4): 9.224010009765626e-07, (81, 5): 8.073519897460938e-07, (81, 6): 8.347999877929688e-07, (81, 7): 8.632520141601563e-07, (81, 8): 7.789019775390625e-07, (81, 9): 7.324509887695313e-07, (81, 10): 8.406019897460938e-07, (81, 11): 7.945499877929688e-07, (81, 12): 7.730560302734375e-07, (81, 13): 7.32906005859375e-07, (81, 14): 8.114039916992188e-07, (81, 15): 6.403070068359375e-07, (81, 16): 8.176069946289063e-07, (81, 17): 5.358060302734376e-07, (81, 18): 6.760089721679688e-07, (81, 19): 7.708540039062501e-07, (81, 20): 7.782059936523437e-07, (81, 21): 8.472559814453125e-07, (81, 22): 6.417550048828126e-07, (81, 23): 8.447069702148438e-07, (81, 24): 7.535029907226563e-07, (81, 25): 7.035520019531251e-07, (81, 26): 8.397999877929688e-07, (81, 27): 7.697050170898438e-07, (81, 28): 8.424520263671875e-07, (81, 29): 8.522570190429688e-07, (81, 30): 6.793040161132813e-07, (81, 31): 8.249539794921875e-07, (81, 32): 8.745050048828126e-07, (81, 33): 6.491019897460938e-07, (81, 34): 7.459010009765626e-07, (81, 35): 7.781530151367188e-07, (81, 36): 6.642550048828125e-07, (81, 37): 6.454030151367188e-07, (81, 38): 6.42156982421875e-07, (81, 39): 6.206539916992188e-07, (81, 40): 8.321589965820314e-07, (81, 41): 7.599550170898438e-07, (81, 42): 8.495549926757813e-07, (81, 43): 8.491580200195313e-07, (81, 44): 8.782509765625e-07, (81, 45): 8.234060058593751e-07, (81, 46): 6.751069946289063e-07, (81, 47): 7.860089721679688e-07, (81, 48): 7.032559814453125e-07, (81, 49): 6.895020141601563e-07, (81, 50): 7.040000000000001e-07, (81, 51): 8.340050048828126e-07, (81, 52): 7.445059814453126e-07, (81, 53): 8.4210400390625e-07, (81, 54): 6.71906982421875e-07, (81, 55): 7.215570068359376e-07, (81, 56): 7.707520141601563e-07, (81, 57): 8.426530151367188e-07, (81, 58): 7.971519775390625e-07, (81, 59): 9.118540039062501e-07, (81, 60): 7.762080078125001e-07, (82, 1): 9.532009887695314e-07, (82, 2): 7.735570068359375e-07, (82, 3): 8.564550170898438e-07, (82, 4): 7.659030151367188e-07, (82, 5): 8.342550048828125e-07, (82, 6): 8.097009887695313e-07, (82, 7): 8.397559814453125e-07, (82, 8): 8.557059936523439e-07, (82, 9): 8.40802001953125e-07, (82, 10): 7.232030029296876e-07, (82, 11): 8.225579833984375e-07, (82, 12): 8.752050170898438e-07, (82, 13): 7.679019775390625e-07, (82, 14): 8.65301025390625e-07, (82, 15): 9.442069702148438e-07, (82, 16): 8.243079833984376e-07, (82, 17): 7.939509887695313e-07, (82, 18): 7.615549926757812e-07, (82, 19): 8.266550292968751e-07, (82, 20): 8.3785400390625e-07, (82, 21): 7.479559936523438e-07, (82, 22): 1.0271800537109375e-06, (82, 23): 8.164080200195313e-07, (82, 24): 7.173519897460938e-07, (82, 25): 7.838499755859375e-07, (82, 26): 7.835009765625e-07, (82, 27): 6.85208984375e-07, (82, 28): 8.618049926757813e-07, (82, 29): 7.6135302734375e-07, (82, 30): 8.868519897460938e-07, (82, 31): 6.930540161132813e-07, (82, 32): 8.11801025390625e-07, (82, 33): 9.34051025390625e-07, (82, 34): 7.407509765625001e-07, (82, 35): 8.614580078125e-07, (82, 36): 6.747030029296875e-07, (82, 37): 8.410560302734375e-07, (82, 38): 7.470520019531251e-07, (82, 39): 7.478560180664063e-07, (82, 40): 5.504039916992187e-07, (82, 41): 7.609520263671876e-07, (82, 42): 7.015560302734375e-07, (82, 43): 7.844559936523438e-07, (82, 44): 1.0130399780273438e-06, (82, 45): 8.864039916992188e-07, (82, 46): 8.276530151367188e-07, (82, 47): 7.700999755859375e-07, (82, 48): 8.051539916992188e-07, (82, 49): 9.459569702148438e-07, (82, 50): 7.014569702148438e-07, (82, 51): 7.274530029296876e-07, (82, 52): 9.061069946289064e-07, (82, 53): 7.414010009765625e-07, (82, 54): 9.962069702148437e-07, (82, 55): 8.558590087890625e-07, (82, 56): 7.745079956054688e-07, (82, 57): 7.982009887695313e-07, (82, 58): 7.199589843750001e-07, (82, 59): 7.205079956054688e-07, (82, 60): 7.333579711914063e-07, (83, 1): 6.818579711914062e-07, (83, 2): 6.476060180664063e-07, (83, 3): 6.496010131835938e-07, (83, 4): 6.763070068359375e-07, (83, 5): 6.513070068359376e-07, (83, 6): 7.258499755859375e-07, (83, 7): 7.990590209960938e-07, (83, 8): 7.996079711914063e-07, (83, 9): 7.249520263671875e-07, (83, 10): 7.192540283203125e-07, (83, 11): 7.936569824218751e-07, (83, 12): 7.031539916992188e-07, (83, 13): 5.916079711914062e-07, (83, 14): 6.445089721679688e-07, (83, 15): 7.039080200195313e-07, (83, 16): 6.720070190429687e-07, (83, 17): 6.376010131835938e-07, (83, 18): 7.327059936523438e-07, (83, 19): 7.525499877929688e-07, (83, 20): 5.646019897460938e-07, (83, 21): 6.53801025390625e-07, (83, 22): 7.12552001953125e-07, (83, 23): 6.699069824218751e-07, (83, 24): 7.475510253906251e-07, (83, 25): 6.132059936523437e-07, (83, 26): 7.042589721679688e-07, (83, 27): 6.5885400390625e-07, (83, 28): 7.432030029296875e-07, (83, 29): 7.374000244140625e-07, (83, 30): 5.534019775390625e-07, (83, 31): 6.953010253906251e-07, (83, 32): 7.297000122070313e-07, (83, 33): 5.3160302734375e-07, (83, 34): 6.953590087890625e-07, (83, 35): 4.930020141601562e-07, (83, 36): 5.53301025390625e-07, (83, 37): 6.067050170898438e-07, (83, 38): 5.844559936523438e-07, (83, 39): 7.134559936523438e-07, (83, 40): 5.68802001953125e-07, (83, 41): 6.607059936523438e-07, (83, 42): 5.497030029296876e-07, (83, 43): 5.676060180664063e-07, (83, 44): 6.7710498046875e-07, (83, 45): 5.965510253906251e-07, (83, 46): 7.379530029296875e-07, (83, 47): 5.47552001953125e-07, (83, 48): 5.479080200195313e-07, (83, 49): 6.761580200195313e-07, (83, 50): 5.520570068359375e-07, (83, 51): 6.774539794921876e-07, (83, 52): 6.602999877929687e-07, (83, 53): 6.014039916992188e-07, (83, 54): 5.643090209960937e-07, (83, 55): 5.26656005859375e-07, (83, 56): 5.887509765625e-07, (83, 57): 6.144559936523438e-07, (83, 58): 6.714060058593751e-07, (83, 59): 5.543049926757812e-07, (83, 60): 4.985589904785157e-07, (84, 1): 7.857999877929688e-07, (84, 2): 8.801539916992188e-07, (84, 3): 9.250029907226563e-07, (84, 4): 8.109520263671876e-07, (84, 5): 8.168549804687501e-07, (84, 6): 8.282509765625001e-07, (84, 7): 8.343540039062501e-07, (84, 8): 7.205e-07, (84, 9): 7.930499877929688e-07, (84, 10): 9.174580078125001e-07, (84, 11): 7.500570068359376e-07, (84, 12): 7.633010253906251e-07, (84, 13): 7.709559936523438e-07, (84, 14): 8.568090209960938e-07, (84, 15): 8.3610400390625e-07, (84, 16): 9.67052001953125e-07, (84, 17): 6.629530029296875e-07, (84, 18): 8.624000244140625e-07, (84, 19): 9.276560058593751e-07, (84, 20): 8.620050048828126e-07, (84, 21): 8.548590087890626e-07, (84, 22): 7.796530151367188e-07, (84, 23): 8.069589843750001e-07, (84, 24): 7.656079711914063e-07, (84, 25): 7.679530029296876e-07, (84, 26): 1.0825e-06, (84, 27): 7.431550292968751e-07, (84, 28): 8.484500122070313e-07, (84, 29): 8.107039794921875e-07, (84, 30): 7.888040161132813e-07, (84, 31): 8.642039794921875e-07, (84, 32): 7.934019775390625e-07, (84, 33): 8.072089843750001e-07, (84, 34): 9.100020141601563e-07, (84, 35): 8.608579711914063e-07, (84, 36): 7.991530151367188e-07, (84, 37): 7.820560302734375e-07, (84, 38): 7.887059936523438e-07, (84, 39): 7.175560302734376e-07, (84, 40): 9.719559936523438e-07, (84, 41): 6.305510253906251e-07, (84, 42): 8.081519775390626e-07, (84, 43): 7.514580078125e-07, (84, 44): 7.949569702148438e-07, (84, 45): 9.526539916992188e-07, (84, 46): 8.104569702148438e-07, (84, 47): 7.448569946289063e-07, (84, 48): 7.695e-07, (84, 49): 7.113590087890626e-07, (84, 50): 8.584509887695313e-07, (84, 51): 8.968499755859375e-07, (84, 52): 8.83156982421875e-07, (84, 53): 7.143049926757813e-07, (84, 54): 9.834559936523438e-07, (84, 55): 8.264580078125e-07, (84, 56): 9.022080078125001e-07, (84, 57): 6.756090087890625e-07, (84, 58): 7.308070068359375e-07, (84, 59): 7.496510009765625e-07, (84, 60): 7.612509765625e-07, (85, 1): 7.269089965820313e-07, (85, 2): 7.7035302734375e-07, (85, 3): 8.807030029296876e-07, (85, 4): 7.872559814453126e-07, (85, 5): 7.891060180664063e-07, (85, 6): 1.02502001953125e-06, (85, 7): 7.734509887695313e-07, (85, 8): 1.031260009765625e-06, (85, 9): 8.714060058593751e-07, (85, 10): 8.317550048828125e-07, (85, 11): 9.209060058593751e-07, (85, 12): 7.747050170898438e-07, (85, 13): 8.259030151367188e-07, (85, 14): 8.461500244140626e-07, (85, 15): 7.486090087890625e-07, (85, 16): 9.138590087890625e-07, (85, 17): 8.345549926757813e-07, (85, 18): 1.0673199462890626e-06, (85, 19): 8.585590209960938e-07, (85, 20): 9.368519897460938e-07, (85, 21): 8.433090209960938e-07, (85, 22): 9.580079956054688e-07, (85, 23): 7.806079711914063e-07, (85, 24): 8.559089965820313e-07, (85, 25): 8.24052978515625e-07, (85, 26): 7.908090209960938e-07, (85, 27): 9.254559936523438e-07, (85, 28): 8.804030151367188e-07, (85, 29): 7.468060302734375e-07, (85, 30): 9.006060180664063e-07, (85, 31): 7.233020019531251e-07, (85, 32): 1.0038900146484376e-06, (85, 33): 8.622500000000001e-07, (85, 34): 9.124080200195313e-07, (85, 35): 8.951090087890625e-07, (85, 36): 7.233070068359376e-07, (85, 37): 8.448079833984375e-07, (85, 38): 9.33708984375e-07, (85, 39): 1.0012500000000002e-06, (85, 40): 7.903040161132813e-07, (85, 41): 8.684030151367188e-07, (85, 42): 9.553070068359377e-07, (85, 43): 8.796019897460938e-07, (85, 44): 6.787589721679688e-07, (85, 45): 9.544569702148439e-07, (85, 46): 8.546530151367188e-07, (85, 47): 8.245029907226563e-07, (85, 48): 7.464509887695313e-07, (85, 49): 8.755549926757813e-07, (85, 50): 1.0039099731445312e-06, (85, 51): 9.203590087890625e-07, (85, 52): 7.570070190429688e-07, (85, 53): 8.340499877929688e-07, (85, 54): 7.419080200195313e-07, (85, 55): 1.0092600097656251e-06, (85, 56): 8.809539794921876e-07, (85, 57): 8.426019897460938e-07, (85, 58): 9.329019775390625e-07, (85, 59): 8.387559814453125e-07, (85, 60): 7.924060058593751e-07, (86, 1): 1.057010009765625e-06, (86, 2): 7.76655029296875e-07, (86, 3): 8.338560180664063e-07, (86, 4): 8.461519775390626e-07, (86, 5): 8.9110302734375e-07, (86, 6): 8.980570068359376e-07, (86, 7): 9.726060180664064e-07, (86, 8): 8.6535498046875e-07, (86, 9): 8.155570068359375e-07, (86, 10): 7.653040161132813e-07, (86, 11): 9.037529907226563e-07, (86, 12): 8.184019775390625e-07, (86, 13): 7.184520263671875e-07, (86, 14): 6.807039794921876e-07, (86, 15): 7.822050170898438e-07, (86, 16): 8.32905029296875e-07, (86, 17): 7.709530029296876e-07, (86, 18): 7.063519897460938e-07, (86, 19): 7.606589965820313e-07, (86, 20): 8.951539916992188e-07, (86, 21): 8.604530029296875e-07, (86, 22): 7.155020141601563e-07, (86, 23): 8.187520141601564e-07, (86, 24): 8.209030151367188e-07, (86, 25): 8.27301025390625e-07, (86, 26): 7.598040161132813e-07, (86, 29): 8.427000122070313e-07, (86, 30): 7.077039794921875e-07, (86, 31): 7.473020019531251e-07, (86, 32): 8.908020019531251e-07, (86, 33): 8.573060302734376e-07, (86, 34): 7.636589965820313e-07, (86, 35): 7.590079956054688e-07, (86, 36): 6.893579711914063e-07, (86, 37): 7.404069824218751e-07, (86, 38): 6.971550292968751e-07, (86, 39): 7.9225e-07, (86, 40): 7.22406005859375e-07, (86, 41): 7.14051025390625e-07, (86, 42): 8.727559814453126e-07, (86, 43): 8.170999755859376e-07, (86, 44): 7.139000244140626e-07, (86, 45): 8.258540039062501e-07, (86, 46): 8.002039794921876e-07, (86, 47): 8.989539794921876e-07, (86, 48): 7.6125e-07, (86, 49): 8.05552001953125e-07, (86, 50): 6.695020141601563e-07, (86, 51): 8.814569702148438e-07, (86, 52): 7.506539916992187e-07, (86, 53): 8.055999755859376e-07, (86, 54): 7.315050048828125e-07, (86, 55): 7.332529907226563e-07, (86, 56): 8.688020019531251e-07, (86, 57): 7.80656005859375e-07, (86, 58): 7.441519775390625e-07, (86, 59): 7.442540283203125e-07, (86, 60): 7.491010131835938e-07}
